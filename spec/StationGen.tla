------------------------------ MODULE StationGen ------------------------------
(***************************************************************************)
(* Random station records, configurations and grids (TLC -simulate), and     *)
(* laws of the specification itself: pressure stays at the station's height, *)
(* sums keep the total, means stay between the extremes, gaps are bridged      *)
(* with values there have been.                                              *)
(***************************************************************************)
EXTENDS Station, Json, IOUtils, TLC
VARIABLES conf, rows, phase
vars == <<conf, rows, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Chance(x, percent) == (x \div 7) % 100 < percent
GInit == conf = <<>> /\ rows = <<>> /\ phase = "conf"
Conf(r) ==
    LET model == Pick(r[1], <<"point", "grid", "grid">>)
        static == model = "grid" \/ Chance(r[2], 60)
        alt == U(r[3], "0", "6000")
        ny == IF model = "grid" \/ static THEN 1 + (r[4] % 3) ELSE 1
        nx == IF model = "grid" \/ static THEN 1 + (r[5] % 3) ELSE 1
        step == IF model = "point" THEN 0 ELSE Pick(r[6], <<0, 0, 60, 180, 360, 720, 1440>>)
        inK == Chance(r[7], 50)
    IN [model |-> model, static |-> static, wrf |-> Chance(r[8], 35) /\ (model = "grid" \/ ~static),
        alt |-> alt, hgt |-> Pick(r[9], <<alt, alt (+) U(r[10], "-1500", "1500"), U(r[10], "0", "7000")>>),
        inK |-> inK, kelvin |-> IF Chance(r[11], 4) THEN ~inK ELSE inK,        \* what the record is in
        lapse |-> [T2 |-> Pick(r[12], <<Zero, R("-0.006"), U(r[13], "-0.01", "0.01")>>), RH2 |-> Pick(r[14], <<Zero, U(r[15], "-0.05", "0.05")>>),
                   RRR |-> Pick(r[16], <<Zero, U(r[17], "-0.002", "0.002")>>), SNOWFALL |-> Pick(r[18], <<Zero, U(r[19], "-0.00003", "0.00003")>>)],
        step |-> step, period |-> IF Chance(r[20], 45) THEN <<>> ELSE LET b == Pick(r[21], <<0, 0, 0, 0, 0, 1>>) IN <<b, b + (r[22] % 3)>>, style |-> r[23] % 6,
        lw |-> Chance(r[24], 55), n |-> ~Chance(r[24], 50), rrr |-> model = "point" \/ ~Chance(r[26], 25), snow |-> Chance(r[27], 45),
        lost |-> IF Chance(r[28], 4) THEN Pick(r[29], <<"T2", "RH2", "U2", "G", "PRES">>) ELSE "none",
        gap |-> IF model = "point" THEN Pick(r[30], <<0, 3, 30>>) ELSE Pick(r[30], <<0, 0, 0, 0, 0, 2, 20>>), hot |-> Chance(r[31], 3),
        dt |-> Pick(r[32], <<60, 60, 30, 20, 10, 180, 360, 0>>), t0 |-> Pick(r[33], <<0, 0, 30, 600, 1380, 1439>>), nt |-> 1 + (r[34] % 14),
        ny |-> ny, nx |-> nx,
        lat0 |-> Pick(r[35], <<R("46.8"), R("-0.01"), R("30.2"), R("-54.4")>>), lon0 |-> Pick(r[36], <<R("10.7"), R("90.6"), R("-70")>>),
        at |-> <<r[37] % ny, r[38] % nx>>, off |-> <<U(r[39], "-0.4", "0.4"), U(r[40], "-0.4", "0.4")>>,
        module |-> Pick(r[41], <<"none", "none", "Wohlfahrt2016">>), tz |-> Pick(r[42], <<R("15"), R("90"), R("-75"), R("0")>>), thld |-> Pick(r[43], <<R("85"), R("89"), R("60")>>),
        \* columns or rows of the grid left out at each side: west, east, south, north
        cut |-> IF model = "grid" THEN <<IF nx > 1 /\ Chance(r[44], 20) THEN 1 ELSE 0, IF nx > 2 /\ Chance(r[45], 20) THEN 1 ELSE 0,
                                         IF ny > 1 /\ Chance(r[46], 20) THEN 1 ELSE 0, IF ny > 2 /\ Chance(r[47], 20) THEN 1 ELSE 0>> ELSE <<0, 0, 0, 0>>]
\* one cell of the grid: height, slope, aspect (clockwise from north), mask
CellOf(r) == [HGT |-> IF r[1] % 400 = 0 THEN RNaN ELSE U(r[2], "0", "7000"), SLOPE |-> Pick(r[3], <<Zero, U(r[4], "0", "60")>>),
              ASPECT |-> IF r[5] % 400 = 0 THEN RNaN ELSE U(r[6], "0", "360"), MASK |-> Pick(r[7], <<One, One, One, Zero, RNaN>>)]
Draw == /\ phase = "conf"
        /\ \E r \in {Rolls(47)} : LET c == Conf(r) IN
             \E g \in {[y \in 1..c.ny |-> [x \in 1..c.nx |-> Rolls(7)]]} :
               conf' = c @@ [cells |-> [y \in 1..c.ny |-> [x \in 1..c.nx |-> CellOf(g[y][x])]]]
        /\ phase' = "rows" /\ UNCHANGED rows
Gap(r, x) == IF Chance(r, conf.gap) THEN None ELSE x
Row(r) ==
    LET t == IF rows = <<>> THEN conf.t0 ELSE rows[Len(rows)].t + (IF conf.dt = 0 THEN Pick(r[1], <<10, 17, 60, 95, 240, 1440>>) ELSE conf.dt)
        k == U(r[2], IF conf.hot THEN "390" ELSE "215", IF conf.hot THEN "420" ELSE "300")
    IN [t |-> t, v |-> [T2 |-> Gap(r[3], IF conf.kelvin THEN k ELSE k (-) R("273.16")), RH2 |-> Gap(r[4], Pick(r[5], <<U(r[6], "-3", "112"), U(r[6], "40", "99"), R("100"), R("0")>>)),
                        U2 |-> Gap(r[7], U(r[8], "0", "25")), G |-> Gap(r[9], Pick(r[10], <<Zero, U(r[11], "0", "1200")>>)), PRES |-> Gap(r[12], U(r[13], "450", "1040")),
                        RRR |-> Gap(r[14], Pick(r[15], <<Zero, Zero, U(r[16], "0", "12")>>)), SNOWFALL |-> Gap(r[17], Pick(r[18], <<Zero, U(r[19], "0", "0.05")>>)),
                        LWin |-> Gap(r[20], U(r[21], "120", "400")), N |-> Gap(r[22], Pick(r[23], <<Zero, One, U(r[24], "0", "1")>>))]]
Add == phase = "rows" /\ Len(rows) < conf.nt /\ (\E r \in {Rolls(24)} : rows' = Append(rows, Row(r))) /\ UNCHANGED <<conf, phase>>
Done == /\ phase = "rows" /\ Len(rows) = conf.nt
        /\ PrintT("STA " \o ToJson([conf |-> conf, rows |-> rows])) /\ phase' = "done" /\ UNCHANGED <<conf, rows>>
GSpec == GInit /\ [][Draw \/ Add \/ Done]_vars
\* --- the specification itself
Full == phase = "done"
Tiny == R("1e-9")
OwnHeight == Full => \A i \in 1..Len(rows) : rows[i].v.PRES = None \/ RClose(Value(conf, "PRES", rows[i].v.PRES, conf.alt), rows[i].v.PRES, Tiny, Tiny)
Total(s) == LET d == Defined(s) IN RSum(d)
KeepsSums == (Full /\ conf.step > 0) => LET g == Grid(rows, {"RRR"}, <<>>, conf.step) IN
    RClose(Total(g.of["RRR"]), Total(AsIs(rows, "RRR")), Tiny, Tiny)
Between == (Full /\ conf.step > 0) => LET g == Grid(rows, {"U2"}, <<>>, conf.step) IN
    \A i \in 1..Len(g.times) : g.of["U2"][i] = None \/ \E a, b \in 1..Len(rows) : rows[a].v.U2 # None /\ rows[b].v.U2 # None
                               /\ rows[a].v.U2 \preceq g.of["U2"][i] (+) Tiny /\ g.of["U2"][i] \preceq rows[b].v.U2 (+) Tiny
Bridges == Full => \A i \in 1..Len(rows) : LET b == Bridged(rows, "G") IN b[i] = None \/ \E j \in 1..i : rows[j].v.G = b[i]
EveryRowOnce == Full => LET st == Starts(rows, 60) IN
    \A j \in 1..Len(rows) : Cardinality({i \in 1..Len(st) : rows[j].t >= st[i] /\ rows[j].t < st[i] + 60}) = 1
=============================================================================
