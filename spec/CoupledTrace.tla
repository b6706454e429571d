---------------------------- MODULE CoupledTrace ----------------------------
(***************************************************************************)
(* Validation of recorded chains of coupled calls against the standalone run *)
(* of the same forcing (ref: reported series and layers by step, and the      *)
(* memory at the end).  limited: the standalone run used the limit of the      *)
(* stability parameter that coupled mode has; otherwise steps with little wind *)
(* (strong stability) end the comparison.                                     *)
(***************************************************************************)
EXTENDS R64, Sequences, Integers, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
C_ == INSTANCE Coupled WITH Weathers <- {}, Depth <- 0, FileAlbedo <- {}, file <- 0, word <- 0, alone <- 0, pair <- 0
VARIABLES k, n
C == Cases[k]
Fail(name, p) == IF p THEN {} ELSE {name}
\* chained results follow each other within rounding, iterated solutions included
Same(a, b) == RClose(a, b, R("1e-7"), R("1e-9"))
Flux(a, b) == RClose(a, b, R("1e-7"), R("1e-5"))
Fluxes == {"LWout", "H", "LE", "B", "QRR", "ME"}
Same1(v, a, b) == IF v \in Fluxes THEN Flux(a, b) ELSE Same(a, b)
\* the domain: each step has wind enough when the limit is not the same
Until == IF C.limited THEN Len(C.steps)
         ELSE LET RECURSIVE go(_) go(m) == IF m > Len(C.steps) \/ C.U2[m] \prec RI(4) THEN m - 1 ELSE go(m+1) IN go(1)
StepV(m) ==
    LET s == C.steps[m]  o == C.ref.series[m]  L == C.ref.layers[m]
        got(v) == LET p == C_!Position[v] IN IF p > s.len THEN <<>> ELSE s.ret[p]
        lay(v) == LET p == C_!LayerAt[v] IN IF p > s.len THEN <<>> ELSE s.ret[p]
    IN Fail("C23:overrides", s.over.albedo_method = "Oerlemans98" /\ s.over.stability_correction = "MO" /\ s.over.full_field)
       \cup {"C23:value " \o v : v \in {v \in (DOMAIN C_!Position \cap DOMAIN o) : Len(got(v)) # 1 \/ ~Same1(v, got(v)[1], o[v])}}
       \cup {"C23:layers " \o v : v \in {v \in DOMAIN C_!LayerAt : Len(lay(v)) # Len(L[v]) \/ \E j \in 1..Len(L[v]) : ~Same(lay(v)[j], L[v][j])}}
       \cup Fail("C23:layer-arrays", \A j \in 1..Len(s.sizes) : s.sizes[j] = C.maxlayers)
       \cup (IF m < Len(C.ref.series) THEN {}
             ELSE Fail("C23:memory", \A j \in 1..3 : LET p == C_!Memory[j] IN p <= s.len /\ Len(s.ret[p]) = 1 /\ Same(s.ret[p][1], C.ref.memory[j])))
End == IF C.referr # "ok" THEN {}            \* the standalone run leaves its domain
       ELSE Fail("C23:error " \o C.err, C.err = "none" /\ Len(C.steps) = Len(C.ref.series))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|call|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 0
Next == \/ /\ n = 0 /\ Say(End) /\ n' = 1 /\ k' = k
        \/ /\ n > 0 /\ n <= Len(C.steps) /\ C.referr = "ok" /\ n <= Until /\ n <= Len(C.ref.series)
           /\ Say(StepV(n)) /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, n>>
=============================================================================
