----------------------------- MODULE StakesTrace -----------------------------
(***************************************************************************)
(* Validation of recorded evaluations.  A case has the grid (lat, lon, mask), *)
(* the times of the run, each cell's reported MB and SNOWHEIGHT, the stakes    *)
(* with their measurements (by measurement time, None: missing) and the two    *)
(* tables that were written (values printed with two decimals).               *)
(***************************************************************************)
EXTENDS Stakes, SequencesExt, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLES k, n
C == Cases[k]
Fail(name, p) == IF p THEN {} ELSE {name}
Printed(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b) ELSE RClose(a, b, Zero, R("0.0050001"))
None_ == <<>>
S == C.stakes[n]
StepAt(m) == LET q == {i \in 1..Len(C.times) : C.times[i] = C.when[m]} IN IF q = {} THEN 0 ELSE CHOOSE i \in q : TRUE
Sim(c, m) == IF C.mask[c[1]][c[2]] = 0 \/ StepAt(m) = 0 THEN RNaN
             ELSE Simulated(C.obs, C.mb[c[1]][c[2]], C.sh[c[1]][c[2]], StepAt(m))
\* differences where there is both a measurement and a simulation
Diffs(c) == LET M == SelectSeq([m \in 1..Len(C.when) |-> m], LAMBDA m : S.obs[m] # None_ /\ ~RIsNaN(Sim(c, m)))
            IN [i \in 1..Len(M) |-> S.obs[M[i]] (-) Sim(c, M[i])]
\* the cell the tables agree with
Fits(c) == /\ S.id \in DOMAIN C.sims /\ Len(C.sims[S.id]) = Len(C.when)
           /\ \A m \in 1..Len(C.when) : Printed(C.sims[S.id][m], Sim(c, m))
Stat(c) == IF C.mask[c[1]][c[2]] = 0 THEN S.id \notin DOMAIN C.stat
           ELSE S.id \in DOMAIN C.stat /\ Printed(C.stat[S.id], Rms(Diffs(c)))
Near == NearCells(C.lat, C.lon, S.lat, S.lon)
Verdict == IF C.err # "none" THEN {"C25:error " \o C.err}
           ELSE Fail("C25:simulation", \E c \in Near : Fits(c))
                \cup Fail("C25:statistic", \E c \in Near : Stat(c))
\* the tables have the stakes and times of the measurements, nothing else
Whole == IF C.err # "none" THEN {}
         ELSE Fail("C25:table", DOMAIN C.sims = {C.stakes[i].id : i \in 1..Len(C.stakes)} /\ C.simtimes = C.when)
              \cup Fail("C25:statistics-table", DOMAIN C.stat \subseteq {C.stakes[i].id : i \in 1..Len(C.stakes)})
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|stake|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1
Next == n <= Len(C.stakes) /\ Say(Verdict \cup (IF n = 1 THEN Whole ELSE {})) /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, n>>
=============================================================================
