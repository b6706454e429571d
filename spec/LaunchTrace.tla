----------------------------- MODULE LaunchTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories of runs: for each run its configuration,  *)
(* its outcome, the log of what happened to its cluster, and the files below  *)
(* the working directory afterwards with the run that last wrote each.        *)
(***************************************************************************)
EXTENDS Launch, Json, IOUtils
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLES k, n, disk
C == Cases[k]
Run == C.runs[n]
Cf == Run.c
Fail(name, p) == IF p THEN {} ELSE {name}
Next_ == After(disk, Cf, n, C.times)
Files == {Run.files[i].path : i \in 1..Len(Run.files)}
At(p) == LET f == CHOOSE i \in 1..Len(Run.files) : Run.files[i].path = p IN Run.files[f]
Submitted == Cardinality(Positions(Run.log, "submit"))
Verdict ==
    Fail("C36:one-cluster", OneCluster(Run.log) \/ (Refused(Cf, disk) /\ Run.log = <<>>))
    \cup Fail("C36:workers", AsConfigured(Cf, Run.log))
    \cup Fail("C36:scaled", Refused(Cf, disk) \/ (Scaled(Cf, Run.log) /\ LocalSize(Cf, Run.log)))
    \cup Fail("C36:alive", Alive(Run.log))
    \cup Fail("C36:released", Released(Run.log))
    \cup (IF Refused(Cf, disk) THEN Fail("C36:refused", Run.status # "ok")
          ELSE Fail("C36:accepted " \o Run.status, Run.status = "ok") \cup Fail("C36:cells", Submitted = C.cells))
    \cup (IF ~Refused(Cf, disk) /\ Run.status # "ok" THEN {} ELSE
          Fail("C36:files", Files = DOMAIN Next_)
          \cup UNION {Fail("C36:kept", Next_[p].by = n \/ At(p).by = Next_[p].by)
                      \cup Fail("C36:replaced", Next_[p].by # n \/ At(p).by = n)
                      \cup Fail("C36:steps", At(p).times = Next_[p].times)
                      \cup Fail("C36:compression", \A i \in 1..Len(At(p).levels) : At(p).levels[i] = Next_[p].level) : p \in Files \cap DOMAIN Next_})
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|run|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1 /\ disk = [p \in {} |-> <<>>]
Judge == n <= Len(C.runs) /\ Say(Verdict) /\ disk' = Next_ /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Judge]_<<k, n, disk>>
=============================================================================
