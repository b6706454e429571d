------------------------------ MODULE MCHistory ------------------------------
(* Every history of Depth calls (processes and cells numbered in the order     *)
(* they first appear), emitted for replay.                                     *)
EXTENDS HistoryModel, Json, IOUtils, FiniteSets
G == JsonDeserialize(IOEnv.GENFILE)
MProcs == 1..G.procs
MCells == 1..G.cells
MStarts == 1..G.starts
MLengths == {G.lengths[i] : i \in 1..Len(G.lengths)}
MDepth == G.depth
Used(f) == {hist[i][f] : i \in 1..Len(hist)}
HNext == /\ Len(hist) < Depth
         /\ \E p \in Procs, c \in Cells, s \in Starts, n \in Lengths :
              /\ p <= 1 + Cardinality(Used("p")) /\ c <= 1 + Cardinality(Used("c"))
              /\ Call(p, c, s, n)
HSpec == HInit /\ [][HNext]_hvars
Shape(h) == [i \in 1..Len(h) |-> [p |-> h[i].p, c |-> h[i].c, s |-> h[i].s, n |-> h[i].n]]
\* histories in which no call can be compared with another are of no use
Useful == \E i, j \in 1..Len(hist) : i < j /\ SameRun(hist[i], hist[j])
Emit == Len(hist) = Depth /\ Useful => PrintT("HIS " \o ToJson(Shape(hist)))
=============================================================================
