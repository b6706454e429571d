---------------------------- MODULE WrfInputTrace ----------------------------
(***************************************************************************)
(* Validation of recorded conversions.  A case has the WRF fields (in) as      *)
(* they stand in the file, the configuration and the written fields (out).    *)
(***************************************************************************)
EXTENDS WrfInput, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
C == Cases[k]
I == C.in
O == C.out
Fail(name, p) == IF p THEN {} ELSE {"C27:" \o name}
Sel == Selected(C.times, IF C.period = <<>> THEN <<>> ELSE <<C.period[1]>>, IF C.period = <<>> THEN <<>> ELSE <<C.period[2]>>)
Cells == {<<y, x>> : y \in 1..C.ny, x \in 1..C.nx}
Single(a, b) == RClose(a, b, R("2e-6"), R("1e-9"))     \* the files hold single precision
\* a field by time that must be w(i, y, x)
Field(name, tol, w(_, _, _)) ==
    IF name \notin DOMAIN O THEN Fail(name, FALSE)
    ELSE Fail(name, Len(O[name]) = Len(Sel) /\ \A i \in 1..Len(Sel), c \in Cells : RClose(O[name][i][c[1]][c[2]], w(i, c[1], c[2]), R(tol), R("1e-6")))
Copy(name, from) == Field(name, "2e-6", LAMBDA i, y, x : I[from][Sel[i]][y][x])
First(name, from) == Fail(name, name \in DOMAIN O /\ \A c \in Cells : Single(O[name][c[1]][c[2]], I[from][Sel[1]][c[1]][c[2]]))
W2(i, y, x) == Wind(I.U10[Sel[i]][y][x], I.V10[Sel[i]][y][x], RI(C.hu))
Rain(y, x) == [i \in 1..Len(C.times) |-> I.RAINNC[i][y][x] (+) I.RAINC[i][y][x]]
Snow(y, x) == [i \in 1..Len(C.times) |-> I.SNOWNC[i][y][x]]
\* single precision differences of accumulated amounts
Amount(name, scale, w(_, _, _), top(_, _)) ==
    IF name \notin DOMAIN O THEN Fail(name, FALSE)
    ELSE Fail(name, Len(O[name]) = Len(Sel) /\ \A i \in 1..Len(Sel), c \in Cells :
            RClose(O[name][i][c[1]][c[2]], w(i, c[1], c[2]), R("2e-5"), R(scale) (.) (One (+) (R("1e-6") (.) top(c[1], c[2])))))
Verdict ==
    IF C.err # "done" THEN Fail("error " \o C.err, FALSE)
    ELSE Fail("times", O.times = [i \in 1..Len(Sel) |-> C.times[Sel[i]]])
         \cup Fail("coordinates", \A c \in Cells : Single(O.lat[c[1]][c[2]], I.XLAT[1][c[1]][c[2]]) /\ Single(O.lon[c[1]][c[2]], I.XLONG[1][c[1]][c[2]]))
         \cup Fail("MASK", \A c \in Cells : O.MASK[c[1]][c[2]] = Mask(I.LU_INDEX[1][c[1]][c[2]], C.class))
         \cup (IF O.times # [i \in 1..Len(Sel) |-> C.times[Sel[i]]] THEN {} ELSE
         Copy("T2", "T2") \cup Copy("G", "SWDOWN") \cup Copy("LWin", "GLW")
         \cup Field("PRES", "2e-6", LAMBDA i, y, x : I.PSFC[Sel[i]][y][x] (/) R("100"))
         \cup Field("RH2", "1e-4", LAMBDA i, y, x : Rh(I.Q2[Sel[i]][y][x], I.PSFC[Sel[i]][y][x], I.T2[Sel[i]][y][x]))
         \cup Field("U2", "1e-5", W2)
         \cup Amount("RRR", "1e-5", LAMBDA i, y, x : Fell(Rain(y, x), Sel, i), LAMBDA y, x : Rain(y, x)[Len(C.times)])
         \cup Amount("SNOWFALL", "1e-7", LAMBDA i, y, x : Depth(C.K, Fell(Snow(y, x), Sel, i), FreshDensity(C.K, I.T2[Sel[i]][y][x], W2(i, y, x))),
                     LAMBDA y, x : Snow(y, x)[Len(C.times)])
         \cup First("HGT", "HGT") \cup First("SNOWHEIGHT", "SNOWH") \cup First("SWE", "SNOW") \cup First("SNOWC", "SNOWC")
         \cup First("LU_INDEX", "LU_INDEX") \cup First("TSK", "TSK"))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|1|convert|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ Say(Verdict) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
