------------------------------ MODULE GridTrace ------------------------------
(***************************************************************************)
(* Validation of recorded histories of two column objects: after every        *)
(* operation everything that can be read from both of them.                  *)
(***************************************************************************)
EXTENDS Grid, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLES k, n
C == Cases[k]
K == Data.ks[C.k]
E == C.ev[n]                                  \* [o, err, obs: two observations]
Fail(name, p) == IF p THEN {} ELSE {name}
Object(b) == [c |-> b.c, m |-> b.m]
Fine == R("1e-12")
Eq(a, b) == a = b \/ RClose(a, b, Fine, R("1e-300"))
EqLayer(a, b) == Eq(a.h, b.h) /\ Eq(a.T, b.T) /\ Eq(a.r, b.r) /\ RClose(a.w, b.w, R("1e-11"), R("1e-14")) /\ RClose(a.i, b.i, R("1e-11"), R("1e-14"))
EqCol(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j] \/ EqLayer(a[j], b[j])
EqMem(a, b) == RClose(a.nh, b.nh, Fine, R("1e-14")) /\ Eq(a.nt, b.nt) /\ Eq(a.ot, b.ot)
\* a layer an operation does not name is the very same; what it gives for one it names, to rounding
Built2 == <<[c |-> Built(K, E.o.rows[1]), m |-> Remember(E.o.memory[1])], [c |-> Built(K, E.o.rows[2]), m |-> Remember(E.o.memory[2])]>>
Expected(g) == IF n = 1 THEN {Built2[g]} ELSE LET was == Object(C.ev[n-1].obs[g]) IN IF g = E.o.g THEN Apply(K, was, E.o) ELSE {was}
Scale(what) == CASE what = "cold_content" -> R("1e-5") [] what = "thermal_diffusivity" -> R("1e-18") [] OTHER -> R("1e-12")
CloseTo(what, a, b) == RClose(a, b, R("1e-9"), Scale(what))
AllClose(what, s, c) == Len(s) = Len(c) /\ \A j \in 1..Len(c) : CloseTo(what, s[j], Of(K, c[j], what))
Read(b) ==
    LET c == b.c IN
    UNION {Fail("C37:" \o what, AllClose(what, b.all[what], c)) : what \in DOMAIN b.all \cap Reads}
    \cup UNION {Fail("C37:one-" \o what, AllClose(what, b.one[what], c)) : what \in DOMAIN b.one \cap Reads}
    \cup (IF "depth" \in DOMAIN b.all THEN Fail("C37:depth", Len(b.all.depth) = Len(c) /\ \A j \in 1..Len(c) : CloseTo("depth", b.all.depth[j], DepthOf(c, j))) ELSE {})
    \cup (IF "depth" \in DOMAIN b.one THEN Fail("C37:one-depth", Len(b.one.depth) = Len(c) /\ \A j \in 1..Len(c) : CloseTo("depth", b.one.depth[j], DepthOf(c, j))) ELSE {})
    \cup Fail("C37:number", b.number = Len(c))
    \cup (IF "height" \in DOMAIN b.total THEN Fail("C37:total-height", CloseTo("h", b.total.height, Height(c))) ELSE {})
    \cup (IF ~Clear(K, c) THEN {} ELSE
         (IF "snow" \in DOMAIN b.total THEN Fail("C37:snow-height", CloseTo("h", b.total.snow, SnowHeight(K, c))) ELSE {})
         \cup Fail("C37:snow-number", b.snownumber = None \/ b.snownumber = <<NSnow(K, c)>>)
         \cup (IF "snow_heights" \in DOMAIN b.parts THEN Fail("C37:snow-heights", b.parts.snow_heights = SnowHeights(K, c)) ELSE {})
         \cup (IF "ice_heights" \in DOMAIN b.parts THEN Fail("C37:ice-heights", b.parts.ice_heights = IceHeights(K, c)) ELSE {}))
    \cup Fail("C37:reading-changes", b.again = Object(b))
Verdict == Fail("C37:accepted " \o E.err, E.err = "none")
    \cup (IF E.err # "none" THEN {} ELSE
          Fail("C37:built", n > 1 \/ \A g \in 1..2 : \E s \in Expected(g) : EqCol(E.obs[g].c, s.c) /\ EqMem(E.obs[g].m, s.m))
          \cup Fail("C37:changed", n = 1 \/ \E s \in Expected(E.o.g) : EqCol(E.obs[E.o.g].c, s.c))
          \cup Fail("C37:memory", n = 1 \/ \E s \in Expected(E.o.g) : EqMem(E.obs[E.o.g].m, s.m))
          \cup Fail("C37:other", n = 1 \/ Object(E.obs[3 - E.o.g]) \in Expected(3 - E.o.g))
          \cup UNION {Read(E.obs[g]) : g \in 1..2})
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|" \o (IF n = 1 THEN "build" ELSE E.o.op) \o "|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1
Judge == n <= Len(C.ev) /\ Say(Verdict) /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Judge]_<<k, n>>
=============================================================================
