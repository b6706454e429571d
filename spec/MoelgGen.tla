------------------------------- MODULE MoelgGen -------------------------------
(***************************************************************************)
(* Random terrain and weather (TLC -simulate), and laws of the specification:  *)
(* nothing at night, never negative, level open ground sees the whole sky and   *)
(* is never shaded, taking the sun away never adds radiation, terrain rising    *)
(* never opens the horizon, and east and west can be exchanged.                 *)
(***************************************************************************)
EXTENDS Moelg, Json, IOUtils, TLC
VARIABLES conf, runs, phase
vars == <<conf, runs, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Chance(x, percent) == (x \div 7) % 100 < percent
GInit == conf = <<>> /\ runs = <<>> /\ phase = "conf"
Conf(r) ==
    LET lat0 == Pick(r[1], <<R("46.8"), R("30.4"), R("-54.4"), R("0.02"), R("-9.1"), R("63.9"), R("78.8"), R("-72.5")>>)
    IN [ny |-> 3 + (r[2] % 4), nx |-> 3 + (r[3] % 4), lat0 |-> lat0, lon0 |-> Pick(r[4], <<R("10.7"), R("90.6"), R("-70")>>),
        dlat |-> Pick(r[5], <<R("0.01"), R("0.003"), R("0.025")>>), dlon |-> Pick(r[6], <<R("0.01"), R("0.003"), R("0.025"), R("0.01"), R("0.003")>>),
        lat |-> lat0 (+) U(r[7], "-0.2", "0.2"), alt |-> U(r[8], "500", "5500"),
        step |-> Pick(r[9], <<3600, 3600, 10800, 7200, 21600>>), lead |-> Pick(r[10], <<Zero, Zero, R("2.5"), R("-7"), R("26"), R("-92"), R("128")>>),
        relief |-> Pick(r[11], <<Zero, R("200"), R("1200"), R("1200"), R("3000")>>), base |-> U(r[12], "0", "5000"),
        wrf |-> Chance(r[13], 25), inK |-> Chance(r[14], 60), lapse |-> Pick(r[15], <<Zero, R("-0.006"), R("0.004")>>), damp |-> Pick(r[16], <<Zero, R("0.001")>>),
        lw |-> Chance(r[17], 40), bare |-> Pick(r[18], <<Zero, RNaN>>), again |-> Chance(r[19], 45)]
CellOf(r, y, x, c) == [HGT |-> (c.base (+) (c.relief (.) (RI(r[1]) (/) RI(Million)))), SLOPE |-> Pick(r[2], <<Zero, U(r[3], "0", "55"), U(r[3], "0", "55")>>),
                 ASPECT |-> U(r[4], "0", "360"), MASK |-> IF y \in {1, c.ny} \/ x \in {1, c.nx} \/ Chance(r[5], 30) THEN c.bare ELSE One]
Weather(r) == LET k == U(r[1], "225", "300") IN
    [T2 |-> IF conf.inK THEN k ELSE k (-) R("273.16"), RH2 |-> U(r[2], "8", "92"), U2 |-> U(r[3], "0", "25"), G |-> U(r[4], "0", "1200"),
     PRES |-> U(r[5], "985", "1035") (.) RPow(One (-) ((R("0.0065") (.) conf.alt) (/) R("288.15")), R("5.255")), LWin |-> U(r[6], "120", "400"), N |-> Pick(r[7], <<Zero, Zero, One, U(r[8], "0", "1"), U(r[8], "0", "1")>>)]
Draw == /\ phase = "conf"
        /\ \E r \in {Rolls(19)} : LET c == Conf(r) IN
             \E g \in {[y \in 1..c.ny |-> [x \in 1..c.nx |-> Rolls(5)]]} :
               conf' = c @@ [cells |-> [y \in 1..c.ny |-> [x \in 1..c.nx |-> CellOf(g[y][x], y, x, c)]]]
        /\ phase' = "runs" /\ UNCHANGED runs
\* a record starts on some day (from 27 February 2009 on) at a full step
Begin(r) == LET perday == 86400 \div conf.step IN
            [t0 |-> 1440 * Pick(r[1], <<r[2] % 365, r[2] % 1460, 1402, 1403, 307, 100 + (r[2] % 60), 290 + (r[2] % 60)>>) + ((r[3] % perday) * (conf.step \div 60)),
             nt |-> IF conf.step > 7200 THEN 9 ELSE 26, rows |-> <<>>]
New == /\ phase = "runs" /\ (IF runs = <<>> THEN TRUE ELSE Len(runs[Len(runs)].rows) = runs[Len(runs)].nt /\ Len(runs) < (IF conf.again THEN 2 ELSE 1))
       /\ (\E r \in {Rolls(3)} : runs' = Append(runs, Begin(r))) /\ UNCHANGED <<conf, phase>>
Add == /\ phase = "runs" /\ runs # <<>>
       /\ LET q == runs[Len(runs)] IN
          /\ Len(q.rows) < q.nt
          /\ \E r \in {Rolls(8)} :
                runs' = [runs EXCEPT ![Len(runs)].rows = Append(q.rows, [t |-> q.t0 + (Len(q.rows) * (conf.step \div 60)), v |-> Weather(r)])]
       /\ UNCHANGED <<conf, phase>>
Done == /\ phase = "runs" /\ Len(runs) = (IF conf.again THEN 2 ELSE 1) /\ Len(runs[Len(runs)].rows) = runs[Len(runs)].nt
        /\ PrintT("MOE " \o ToJson([conf |-> conf, runs |-> runs])) /\ phase' = "done" /\ UNCHANGED <<conf, runs>>
GSpec == GInit /\ [][Draw \/ New \/ Add \/ Done]_vars
\* --- the specification itself
Full == phase = "done"
Tiny == R("1e-9")
Ground == [lat |-> [y \in 1..conf.ny |-> conf.lat0 (+) (RI(conf.ny - y) (.) conf.dlat)], lon |-> [x \in 1..conf.nx |-> conf.lon0 (+) (RI(x-1) (.) conf.dlon)],
           z |-> [y \in 1..conf.ny |-> [x \in 1..conf.nx |-> conf.cells[conf.ny + 1 - y][x].HGT]]]
Inner == {<<y, x>> : y \in 2..(conf.ny-1), x \in 2..(conf.nx-1)}
SunAt(i) == Sun(conf.lat, 1 + ((58 + (runs[1].rows[i].t \div 1440)) % 365), (runs[1].rows[i].t % 1440) \div 60, conf.step, conf.lead)
At(i, shaded, view) == LET w == runs[1].rows[i].v IN
    Radiation(conf.lat, 100, SunAt(i), [T2 |-> R("270"), RH2 |-> w.RH2, PRES |-> w.PRES, N |-> w.N, z |-> R("2000")], R("30"), R("200"), shaded, view)
NightAndSign == Full => \A i \in 1..Len(runs[1].rows) : LET q == At(i, FALSE, One) IN Zero \preceq q /\ q \prec R("2000") /\ (SunAt(i).up \prec R("0.01") => q = Zero)
ShadeTakes == Full => \A i \in 1..Len(runs[1].rows) : At(i, TRUE, One) \preceq At(i, FALSE, One) /\ At(i, FALSE, R("0.5")) \preceq At(i, FALSE, One)
SunInSky == Full => \A i \in 1..Len(runs[1].rows) : LET s == SunAt(i)  \* the horizontal parts of the sun's direction: from the azimuth and from the hour angle
    IN RClose(Sind(s.from) (.) RCos(RAsin(s.up)), RCos(s.decl) (.) Sind(s.hour), R("1e-6"), R("1e-6"))
Lifted(g, y, x) == [g EXCEPT !.z[y][x] = g.z[y][x] (+) R("500")]
Flat == (Full /\ conf.relief = Zero) => \A p \in Inner : \A d \in {0, 70, 200} : Horizon(Ground, p[1], p[2], RI(d)) \in {Zero, RI(-90)}
FlatView == (Full /\ conf.relief = Zero) => \A p \in Inner : View(Ground, p[1], p[2], Zero, Zero) = One
Ordered == Full => \A p \in Inner : LET v == View(Ground, p[1], p[2], R("20"), R("90")) IN Zero \preceq v /\ v \preceq One
Rising == (Full /\ conf.ny > 3) => LET g == Ground  k == Lifted(g, 1, 2) IN
    \A p \in Inner : \A d \in {10, 130, 350} : Horizon(g, p[1], p[2], RI(d)) \preceq Horizon(k, p[1], p[2], RI(d))
=============================================================================
