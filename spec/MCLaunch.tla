------------------------------ MODULE MCLaunch ------------------------------
(***************************************************************************)
(* Every history of up to three runs over two directories, two prefixes,      *)
(* three time stamps and all periods, with and without a restart.             *)
(***************************************************************************)
EXTENDS Launch
VARIABLES hist, disk
vars == <<hist, disk>>
Times == <<"2009-12-31T18:30", "2010-01-01T00:30", "2010-01-01T06:30">>
Cfg(d, p, a, b, late, r) == [dir |-> d, prefix |-> p, level |-> a, start |-> Times[a], end |-> IF late THEN SubSeq(Times[b], 1, 11) \o "23:59" ELSE Times[b],
                             last |-> Times[b], restart |-> r, bad |-> FALSE]
Configs == UNION {{Cfg(d, p, a, b, late, r) : d \in {"data", "other"}, p \in {"out", "out_x"}, a \in {x}, b \in x..3, late \in BOOLEAN, r \in BOOLEAN} : x \in 1..2}
Legal(c) == c.start # c.last \/ ~c.restart
Init == hist = <<>> /\ disk = [p \in {} |-> <<>>]
Next == /\ Len(hist) < 3
        /\ \E c \in Configs : Legal(c) /\ hist' = Append(hist, c) /\ disk' = After(disk, c, Len(hist) + 1, Times)
Spec == Init /\ [][Next]_vars
Owned == \A p \in DOMAIN disk : disk[p].by \in 1..Len(hist) /\ Len(disk[p].times) > 0
\* the saved state of an accepted run is there for a restart at its last step, and was written by a run that ended there
Continues == \A p \in DOMAIN disk : LET c == hist[disk[p].by] IN
    /\ SavedName(c, c.last) \in DOMAIN disk
    /\ disk[SavedName(c, c.last)].times = <<c.last>>
\* a run never touches another directory, and only its own two files change
Local == [][LET c == hist'[Len(hist')] IN
            \A p \in DOMAIN disk' : (p \in DOMAIN disk /\ disk'[p] = disk[p]) \/ p \in {ResultName(c), SavedName(c, c.last)}]_vars
\* another period's day, prefix or directory never shares a result
Apart == \A i, j \in 1..Len(hist) : (ResultName(hist[i]) = ResultName(hist[j])) =>
            (hist[i].dir = hist[j].dir /\ hist[i].prefix = hist[j].prefix /\ Day(hist[i].start) = Day(hist[j].start) /\ Day(hist[i].end) = Day(hist[j].end))
=============================================================================
