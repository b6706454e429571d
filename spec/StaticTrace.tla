----------------------------- MODULE StaticTrace -----------------------------
(***************************************************************************)
(* Validation of static files made by the real code.                         *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
Case == Cases[k]
C == Case.conf
O == Case.out
Fail(name, p) == IF p THEN {} ELSE {"C33:" \o name}
Verdict ==
    LET g == Target([west |-> C.west, south |-> C.south, res |-> C.res, z |-> Case.z], C.window, C.k)
        At == {<<y, x>> : y \in 1..Rows(g), x \in 1..Cols(g)}
        ice == {p \in At : Glacier(g, C.boxes, p[1], p[2])}
        bare == \E p \in ice : ~Terrain(g, p[1], p[2])
        refused == Case.err # "done"
        near(a, b) == ~RIsNaN(a) /\ RClose(a, b, R("1e-6"), R("1e-6"))
    IN Fail("sources changed", Case.sources) \cup
       (IF bare THEN Fail("refused undefined terrain", refused)
        ELSE IF refused THEN Fail("made " \o Case.err, FALSE)
        ELSE IF Len(O.lat) # Rows(g) \/ Len(O.lon) # Cols(g) THEN Fail("grid size", FALSE)
        ELSE Fail("grid", (\A y \in 1..Rows(g) : RClose(O.lat[y], Lat(g, y), Zero, g.res (.) R("1e-3")))
                          /\ \A x \in 1..Cols(g) : RClose(O.lon[x], Lon(g, x), Zero, g.res (.) R("1e-3")))
             \cup (IF ~({"HGT", "SLOPE", "ASPECT", "MASK"} \subseteq DOMAIN O.vars) THEN Fail("variables", FALSE) ELSE
                   Fail("HGT", \A p \in At : LET h == g.z[p[1]][p[2]] IN IF h = None THEN RIsNaN(O.vars.HGT[p[1]][p[2]]) ELSE near(O.vars.HGT[p[1]][p[2]], h))
                   \cup Fail("MASK", \A p \in At : (O.vars.MASK[p[1]][p[2]] = One) <=> p \in ice)
                   \cup Fail("SLOPE", \A p \in At : Terrain(g, p[1], p[2]) => near(O.vars.SLOPE[p[1]][p[2]], Slope(g, p[1], p[2])))
                   \cup Fail("ASPECT", \A p \in At : Terrain(g, p[1], p[2]) => ~RIsNaN(O.vars.ASPECT[p[1]][p[2]]) /\ Faces(g, p[1], p[2], O.vars.ASPECT[p[1]][p[2]]))))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|1|static|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ Say(Verdict) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
