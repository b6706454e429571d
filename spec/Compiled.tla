------------------------------ MODULE Compiled ------------------------------
(***************************************************************************)
(* Runs one after another in processes of their own that may reuse compiled   *)
(* code.  Constants are burnt into compiled code, so what was compiled with    *)
(* other constants must not be taken up again: every run uses the constants    *)
(* configured for it.  STORE says what a process may reuse: "nothing", or the  *)
(* code kept with the constants it was compiled with ("keyed"); "plain" (kept  *)
(* by source alone) is the fault this excludes.                                *)
(* Every chain of LEN runs over the sets of constants 1..N is printed as a     *)
(* driver job.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
G == JsonDeserialize(IOEnv.GENFILE)     \* n, len, store
VARIABLES chain, used, store
vars == <<chain, used, store>>
Init == chain = <<>> /\ used = <<>> /\ store = {}
Run(k) ==
    LET kept == CASE G.store = "keyed" -> store \cap {k} [] G.store = "plain" -> store [] OTHER -> {}
        with == IF kept = {} THEN k ELSE CHOOSE j \in kept : TRUE
    IN /\ chain' = Append(chain, k) /\ used' = Append(used, with)
       /\ store' = IF G.store = "plain" /\ store # {} THEN store ELSE store \cup {with}
Next == Len(chain) < G.len /\ \E k \in 1..G.n : Run(k)
Spec == Init /\ [][Next]_vars
AsConfigured == used = chain
Emit == Len(chain) = G.len /\ (\A j \in 2..G.len : chain[j] # chain[j-1]) => PrintT("CHN " \o ToJson(chain))
=============================================================================
