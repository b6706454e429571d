------------------------------ MODULE PlotsTrace ------------------------------
(***************************************************************************)
(* Validation of what the real plotting code handed to matplotlib and VTK.    *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
Case == Cases[k]
C == Case.conf
O == Case.out
Fail(name, p) == IF p THEN {} ELSE {"C34:" \o name}
Same(a, b) == IF b = None THEN RIsNaN(a) ELSE ~RIsNaN(a) /\ RClose(a, b, R("1e-9"), R("1e-12"))
Rough(a, b) == ~RIsNaN(a) /\ RClose(a, b, R("1e-5"), R("1e-6"))
Lat(y) == R("46") (+) (R("0.01") (.) RI(y))
Lon(x) == R("10") (+) (R("0.013") (.) RI(x))
\* coordinates of the centres, or of the edges around them
Around(s, n, pos(_)) == \/ Len(s) = n /\ \A i \in 1..n : RClose(s[i], pos(i), Zero, R("1e-6"))
                        \/ Len(s) = n+1 /\ \A i \in 1..n : RClose(s[i] (+) s[i+1], pos(i) (+) pos(i), Zero, R("1e-6")) /\ s[i] \prec s[i+1]
Grid(p, val(_, _)) == /\ Around(p.x, C.nx, Lon) /\ Around(p.y, C.ny, Lat) /\ Len(p.z) = C.ny
                      /\ \A y \in 1..C.ny : Len(p.z[y]) = C.nx /\ \A x \in 1..C.nx : Same(p.z[y][x], val(y, x))
Long(v) == IF v = "HGT" THEN "elevation" ELSE Field[Index(v)][2]
Unit(v) == IF v = "HGT" THEN "m" ELSE Field[Index(v)][3]
Wanted == IF C.kind = "field" THEN {C.var} ELSE IF C.type = 1 THEN StampContour ELSE StampMesh
Panels(v) == {i \in 1..Len(O.panels) : O.panels[i].title = Long(v)}
Panel(v) == LET ps == Panels(v) IN
    IF Cardinality(ps) # 1 THEN Fail("one panel for " \o v, FALSE)
    ELSE LET p == O.panels[CHOOSE i \in ps : TRUE] IN
         Fail("values of " \o v, p.kind = (IF C.type = 1 THEN "contourf" ELSE "pcolormesh") /\ Grid(p, LAMBDA y, x : Shown(C, v, y, x)))
         \cup Fail("unit of " \o v, p.label = Unit(v))
         \cup Fail("topography", p.topo # <<>> /\ Grid(p.topo[1], LAMBDA y, x : Elevation(C, y, x)))
Fields == IF C.nx = 1 \/ (C.day /\ ~C.mean /\ (C.kind = "stamp" \/ C.var # "HGT")) THEN Fail("refused", Case.err # "done")
          ELSE IF Case.err # "done" THEN Fail("drawn " \o Case.err, FALSE)
          ELSE Fail("panels", Len(O.panels) = Cardinality(Wanted)) \cup UNION {Panel(v) : v \in Wanted} \cup Fail("saved", O.files = (IF C.save THEN 1 ELSE 0))
\* --- the surface in three dimensions: one point per cell
Nearby(t) == LET at == 60 * C.when + C.shift  d(s) == LET g == 60 * Hour(C, s) - at IN IF g < 0 THEN -g ELSE g IN \A s \in Steps(C) : d(t) <= d(s)
Surface(v, y, x) == IF v = "HGT" THEN {Elevation(C, y, x)} ELSE IF C.mean THEN {Shown(C, v, y, x)} ELSE {At(C, v, t, y, x) : t \in {s \in Steps(C) : Nearby(s)}}
Point(p, y, x) == Rough(p[1], Lon(x)) /\ Rough(p[2], Lat(y)) /\ RClose(p[3], Elevation(C, y, x) (/) RI(6370000), R("1e-5"), Zero)
Vtk == IF C.nx = 1 THEN Fail("refused", Case.err # "done")
       ELSE IF Case.err # "done" THEN Fail("drawn " \o Case.err, FALSE)
       ELSE Fail("points", Len(O.points) = C.ny * C.nx)
            \cup Fail("surface", \A y \in 1..C.ny, x \in 1..C.nx : \E i \in 1..Len(O.points) :
                    Point(O.points[i], y, x) /\ \E w \in Surface(C.var, y, x) : Same(O.points[i][4], w))
\* --- one profile
Y == C.at[1]  
X == C.at[2]
T == CHOOSE t \in Steps(C) : Hour(C, t) = C.when
N(t) == Count(C, t, Y, X)
Top(v, t, l) == Value(C, v, t, Y, X, IF l = 0 THEN 1 ELSE l)
IsLine(ln, v) == /\ Len(ln.x) >= N(T) + 1 /\ Len(ln.y) = Len(ln.x)
                 /\ \A i \in 1..(N(T)+1) : Same(ln.x[i], Top(v, T, i-1)) /\ Same(ln.y[i], Depth(C, T, Y, X, i-1))
                 /\ \A i \in (N(T)+2)..Len(ln.x) : RIsNaN(ln.x[i]) \/ RIsNaN(ln.y[i])
Profile == IF Case.err # "done" THEN Fail("drawn " \o Case.err, FALSE)
           ELSE Fail("density profile", \E i \in 1..Len(O.lines) : O.lines[i].step /\ IsLine(O.lines[i], "RHO") /\ O.lines[i].down)
                \cup Fail("temperature profile", \E i \in 1..Len(O.lines) : ~O.lines[i].step /\ IsLine(O.lines[i], "T"))
                \cup Fail("labels", \A v \in {"Density [kg m^-3]", "Temperature [K]", "Depth [m]"} : \E i \in 1..Len(O.labels) : O.labels[i] = v)
                \cup (IF C.depths = <<>> THEN {} ELSE
                      Fail("values at depths", Len(O.told) = Len(C.depths) /\ \A i \in 1..Len(C.depths) :
                        \E l \in NearestTo(C, T, Y, X, RI(C.depths[i]) (/) RI(100), 0) :
                            /\ RClose(O.told[i][1], Depth(C, T, Y, X, l), Zero, R("0.00051"))
                            /\ RClose(O.told[i][2], Top("RHO", T, l), Zero, R("0.0051")) /\ RClose(O.told[i][3], Top("T", T, l), Zero, R("0.0051"))))
\* --- profiles over time: x counts the steps, y is the height above the glacier ice
Chosen == IF C.span = <<>> THEN [i \in 1..C.nt |-> i] ELSE [i \in 1..(C.span[2] - C.span[1] + 1) |-> i + C.span[1]]
Bar == CASE C.lvar = "T" -> "Temperature [K]" [] C.lvar = "RHO" -> "Density [kg m^-3]" [] C.lvar = "IF" -> "Ice fraction [-]" [] C.lvar = "REF" -> "Refreezing [m w.e.]"
         [] C.lvar = "LWC" -> "Liquid Water Content [-]" [] C.lvar = "POR" -> "Air Porosity [-]" [] C.lvar = "DEPTH" -> "Depth [m]" [] OTHER -> "Layer height [m]"
Hair == R("1e-9")
\* the value of the layer whose lower boundary is nearest; nothing above the snow
Pixel(z, t, h) == LET s == Snow(C, t, Y, X) IN
    \/ s \preceq h (+) Hair /\ RIsNaN(z)
    \/ h \prec s (+) Hair /\ ~RIsNaN(z) /\ \E l \in NearestTo(C, t, Y, X, s (-) h, 1) : Same(z, Value(C, C.lvar, t, Y, X, l))
\* the valid measurements at plotted steps: <<which, value>>
Measured == LET at(i) == {j \in 1..Len(Chosen) : Hour(C, Chosen[j]) = C.stakes[i][1]}
                q == SelectSeq(<<>> \o [i \in 1..Len(C.stakes) |-> i], LAMBDA i : C.stakes[i][2] # -9999 /\ at(i) # {})
            IN <<>> \o [i \in 1..Len(q) |-> <<(CHOOSE j \in at(q[i]) : TRUE) - 1, C.stakes[q[i]][2]>>]
MonthEnd == 72 + (Hour(C, Chosen[1]) % 24)      \* of January, at the time of day of the first step
Series == IF Case.err # "done" THEN Fail("drawn " \o Case.err, FALSE)
          ELSE IF Len(O.panels) # 1 THEN Fail("one panel", FALSE)
          ELSE LET p == O.panels[1]  n == Len(Chosen) IN
               Fail("times of the profiles", Len(p.z) > 0 /\ Len(p.z[1]) = n /\ Around(p.x, n, LAMBDA i : RI(i-1)))
               \cup (IF Len(p.z) = 0 \/ Len(p.z[1]) # n THEN {} ELSE
                     Fail("profiles", \A i \in 1..Len(p.z), j \in 1..n : Pixel(p.z[i][j], Chosen[j], p.y[i]))
                     \cup Fail("height of the picture", \A j \in 1..n : Snow(C, Chosen[j], Y, X) \preceq p.y[Len(p.y)] (+) Case.first))
               \cup Fail("unit of the profiles", p.label = Bar)
               \cup Fail("measured heights", Len(O.points) = Len(Measured) /\ \A i \in 1..Len(Measured) : \E j \in 1..Len(O.points) :
                        RClose(O.points[j][1], RI(Measured[i][1]), Zero, R("1e-6")) /\ RClose(O.points[j][2], RI(Measured[i][2]) (/) RI(100), Zero, R("1e-9")))
               \cup Fail("dates", /\ \A i \in 1..Len(O.ticks) : O.ticks[i][2] = "2009-01-31" /\ \E j \in 1..n :
                                        RClose(O.ticks[i][1], RI(j-1), Zero, R("1e-6")) /\ Hour(C, Chosen[j]) \div 24 = 3
                                /\ (MonthEnd >= Hour(C, Chosen[1]) /\ MonthEnd <= Hour(C, Chosen[n]) => O.ticks # <<>>))
Verdict == Fail("result file changed", Case.same)
           \cup (CASE C.kind \in {"field", "stamp"} -> Fields [] C.kind = "vtk" -> Vtk [] C.kind = "profile" -> Profile [] OTHER -> Series)
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|1|plot|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ Say(Verdict) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
