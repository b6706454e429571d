------------------------------ MODULE StaticGen ------------------------------
(***************************************************************************)
(* Random elevation models, windows, coarsenings and outlines (TLC           *)
(* -simulate), and laws of the specification itself: coarsening keeps the      *)
(* mean height and does not shift the grid, cropping moves no cell, a bigger   *)
(* outline holds no fewer cells.                                             *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils, TLC
VARIABLES conf, z, phase
vars == <<conf, z, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Chance(x, percent) == (x \div 7) % 100 < percent
\* an edge of a box somewhere between two cell centres of the finest grid
Conf(r) ==
    LET tile == Chance(r[1], 60)
        k == Pick(r[2], <<1, 1, 2, 3>>)
        w == IF tile THEN <<r[3] % 3, r[4] % 3, r[5] % 3, r[6] % 3>> ELSE <<0, 0, 0, 0>>
        a == 3 + (r[7] % (IF k = 3 THEN 2 ELSE 4))
        b == 3 + (r[8] % (IF k = 3 THEN 2 ELSE 4))
    IN [tile |-> tile, k |-> k, aggregate |-> k > 1 \/ Chance(r[9], 20), window |-> w, ny |-> a * k + w[3] + w[4], nx |-> b * k + w[1] + w[2],
        res |-> Pick(r[10], <<R("0.001"), R("0.0008333333333"), R("0.01"), R("0.25")>>),
        west |-> Pick(r[11], <<R("90.62"), R("-70.5"), R("10.1"), R("0")>>), south |-> Pick(r[12], <<R("30.46"), R("-54.4"), R("-0.02"), R("46.8")>>),
        relief |-> Pick(r[13], <<"high", "high", "sea", "low">>), nodata |-> Chance(r[14], 60), gaps |-> Chance(r[15], 25),
        nbox |-> 1 + (r[16] % 3), edge |-> Chance(r[17], 25), slash |-> Chance(r[18], 50)]
Box(c, r) ==
    LET lo == IF c.edge THEN 0 ELSE 1
        x0 == c.window[1] + c.k * lo  x1 == c.nx - c.window[2] - c.k * lo
        y0 == c.window[3] + c.k * lo  y1 == c.ny - c.window[4] - c.k * lo
        xa == x0 + (r[1] % (x1 - x0))  ya == y0 + (r[2] % (y1 - y0))
        xb == xa + 1 + (r[3] % (x1 - xa))  yb == ya + 1 + (r[4] % (y1 - ya))
        at(first, i, d) == first (+) (c.res (.) (RI(i) (+) U(d, "-0.3", "0.3")))
    IN <<at(c.west, xa, r[5]), at(c.south, ya, r[6]), at(c.west, xb, r[7]), at(c.south, yb, r[8])>>
Height(c, r) ==
    IF c.nodata /\ c.gaps /\ r[1] % 40 = 0 THEN None
    ELSE CASE c.relief = "high" -> U(r[2], "2000", "6000") [] c.relief = "sea" -> Pick(r[3], <<U(r[2], "-30", "40"), U(r[2], "1", "300"), IF c.nodata THEN Zero ELSE One>>)
           [] OTHER -> RI(1 + (r[2] % 4))
GInit == conf = <<>> /\ z = <<>> /\ phase = "conf"
Draw == /\ phase = "conf"
        /\ \E r \in {Rolls(18)} : LET c == Conf(r) IN \E b \in {[i \in 1..c.nbox |-> Rolls(8)]} :
             conf' = c @@ [boxes |-> [i \in 1..c.nbox |-> Box(c, b[i])]]
        /\ phase' = "rows" /\ UNCHANGED z
Add == phase = "rows" /\ Len(z) < conf.ny /\ (\E r \in {[x \in 1..conf.nx |-> Rolls(3)]} : z' = Append(z, <<>> \o [x \in 1..conf.nx |-> Height(conf, r[x])])) /\ UNCHANGED <<conf, phase>>
Done == /\ phase = "rows" /\ Len(z) = conf.ny
        /\ PrintT("STT " \o ToJson([conf |-> conf, z |-> z])) /\ phase' = "done" /\ UNCHANGED <<conf, z>>
GSpec == GInit /\ [][Draw \/ Add \/ Done]_vars
\* --- the specification itself
Full == phase = "done"
S == [west |-> conf.west, south |-> conf.south, res |-> conf.res, z |-> z]
T == Target(S, conf.window, conf.k)
Flat(zz) == <<>> \o [i \in 1..(Len(zz) * Len(zz[1])) |-> zz[1 + ((i-1) \div Len(zz[1]))][1 + ((i-1) % Len(zz[1]))]]
Tiny == R("1e-9")
KeepsMean == Full => (conf.gaps \/ RClose(Mean(Flat(T.z)), Mean(Flat(Crop(S, conf.window).z)), Tiny, Tiny))
NoShift == Full => /\ RClose((Lat(T, 1) (+) Lat(T, Rows(T))) (/) RI(2),
                             (Lat(S, 1 + conf.window[3]) (+) Lat(S, conf.ny - conf.window[4])) (/) RI(2), Tiny, Tiny)
                   /\ RClose((Lon(T, 1) (+) Lon(T, Cols(T))) (/) RI(2),
                             (Lon(S, 1 + conf.window[1]) (+) Lon(S, conf.nx - conf.window[2])) (/) RI(2), Tiny, Tiny)
Grows == Full => \A y \in 1..Rows(T), x \in 1..Cols(T) : Glacier(T, <<conf.boxes[1]>>, y, x) => Glacier(T, conf.boxes, y, x)
SlopeLevel == Full => \A y \in 1..Rows(T), x \in 1..Cols(T) : Terrain(T, y, x) => Zero \preceq Slope(T, y, x) /\ Slope(T, y, x) \prec R("90")
=============================================================================
