------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Calls of the core and what they may depend on (C17).                      *)
(*                                                                          *)
(* A call is [p, c, s, n]: in process p, for cell c, from start s (1: a new  *)
(* column, 2: a saved state), over the first n steps of the cell's forcing.  *)
(* Its result is the first n entries of a series that depends on c and s     *)
(* alone: neither p, nor what p did before, nor later forcing matters, and   *)
(* what was handed in is the same after the call.                            *)
(***************************************************************************)
EXTENDS Sequences, Integers
SameRun(a, b) == a.c = b.c /\ a.s = b.s
\* what an earlier call a requires of a later call b (Eq: same values)
Agree(a, b, EqAll(_,_), EqPrefix(_,_)) ==
    ~SameRun(a, b) \/ IF a.n = b.n THEN EqAll(a, b) ELSE IF a.n < b.n THEN EqPrefix(a, b) ELSE EqPrefix(b, a)
=============================================================================
