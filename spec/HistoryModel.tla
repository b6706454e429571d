---------------------------- MODULE HistoryModel ----------------------------
(* Processes that run cells one after another.  Each process keeps what a     *)
(* program may keep between calls (which call was the last, how many there     *)
(* were); the model's results do not look at it.                               *)
EXTENDS History, TLC
CONSTANTS Procs, Cells, Starts, Lengths, Depth
VARIABLES hist,    \* calls made, with their results
          truth,   \* [cell, start] -> the series
          given    \* cell -> what is handed in (its identity)
hvars == <<hist, truth, given>>
MaxN == CHOOSE n \in Lengths : \A m \in Lengths : m <= n
\* results are written as <<cell, start, step>>: every entry is its own value
Series(c, s) == [t \in 1..MaxN |-> <<c, s, t>>]
HInit == hist = <<>> /\ truth = [c \in Cells, s \in Starts |-> Series(c, s)] /\ given = [c \in Cells |-> c]
Call(p, c, s, n) == /\ hist' = Append(hist, [p |-> p, c |-> c, s |-> s, n |-> n, v |-> SubSeq(truth[c, s], 1, n)])
                    /\ UNCHANGED <<truth, given>>
\* --- properties
FunctionOfInputs == \A i, j \in 1..Len(hist) :
    Agree(hist[i], hist[j], LAMBDA a, b : a.v = b.v, LAMBDA a, b : a.v = SubSeq(b.v, 1, a.n))
Untouched == \A c \in Cells : given[c] = c
=============================================================================
