----------------------------- MODULE WrfInputGen -----------------------------
(***************************************************************************)
(* Random WRF files (TLC -simulate): any number of steps and cells, land-use  *)
(* field, accumulated rain and snow (in steps of 1/64 mm), states, period.     *)
(* The specification itself: the steps add up to the total, humidity stays     *)
(* within its limits.                                                        *)
(***************************************************************************)
EXTENDS WrfInput, Json, IOUtils, TLC
VARIABLES shape, steps, phase
vars == <<shape, steps, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
GInit == shape = <<>> /\ steps = <<>> /\ phase = "shape"
DrawShape ==
    /\ phase = "shape"
    /\ \E r \in {Rolls(30)} :
         LET ny == 1 + (r[1] % 3)  nx == 1 + (r[2] % 3)  nt == 1 + (r[3] % 7)
             dt == Pick(r[4], <<60, 180, 720, 1440>>)  t0 == Pick(r[5], <<0, 60, 1380, 1439>>)
             last == (t0 + (nt-1)*dt) \div 1440
             b == r[6] % (last + 1)
             e == b + (r[7] % (last - b + 2))
         IN shape' = [ny |-> ny, nx |-> nx, nt |-> nt, times |-> [i \in 1..nt |-> t0 + (i-1)*dt],
                      lu |-> [y \in 1..ny |-> [x \in 1..nx |-> Pick(r[10 + 3*y + x], <<24, 24, 15, 1, 23>>)]],
                      class |-> Pick(r[8], <<24, 15>>), hu |-> Pick(r[9], <<10, 10, 3>>),
                      hgt |-> [y \in 1..ny |-> [x \in 1..nx |-> U(r[20 + 3*y + x - 3], "0", "6000")]],
                      period |-> IF r[10] % 3 = 0 THEN <<>> ELSE <<b, e>>, style |-> r[11] % 3, k |-> r[12] % 3]
    /\ phase' = "steps" /\ UNCHANGED steps
Cell(r, prev) ==
    LET more == Pick(r[1], <<0, 0, 1, 7, 640, 64000>>)  conv == Pick(r[2], <<0, 0, 5, 333>>)
        snow == IF r[3] % 3 = 0 THEN 0 ELSE (more + conv) \div Pick(r[4], <<1, 2, 4>>)
    IN [rnc |-> prev[1] + more, rc |-> prev[2] + conv, snc |-> prev[3] + snow,
        T2 |-> U(r[5], "233", "293"), Q2 |-> Pick(r[6], <<U(r[7], "0", "0.012"), Zero, U(r[7], "-0.0001", "0.0001")>>), PSFC |-> U(r[8], "45000", "102000"),
        SWDOWN |-> Pick(r[9], <<Zero, U(r[10], "0", "1200")>>), GLW |-> U(r[11], "120", "400"), U10 |-> U(r[12], "-20", "20"), V10 |-> Pick(r[13], <<Zero, U(r[13], "-20", "20")>>),
        SNOWH |-> U(r[14], "0", "3"), SNOW |-> U(r[15], "0", "900"), SNOWC |-> RI(r[16] % 2), TSK |-> U(r[17], "230", "290")]
Prev(y, x) == IF steps = <<>> THEN <<(7*y + x) * 640, x * 64, y * 128>> ELSE LET c == steps[Len(steps)][y][x] IN <<c.rnc, c.rc, c.snc>>
AddStep == /\ phase = "steps" /\ Len(steps) < shape.nt
           /\ \E r \in {[y \in 1..shape.ny |-> [x \in 1..shape.nx |-> Rolls(17)]]} :
                 steps' = Append(steps, [y \in 1..shape.ny |-> [x \in 1..shape.nx |-> Cell(r[y][x], Prev(y, x))]])
           /\ UNCHANGED <<shape, phase>>
Done == /\ phase = "steps" /\ Len(steps) = shape.nt
        /\ PrintT("WRF " \o ToJson([shape |-> shape, steps |-> steps])) /\ phase' = "done" /\ UNCHANGED <<shape, steps>>
GSpec == GInit /\ [][DrawShape \/ AddStep \/ Done]_vars
\* --- the specification itself
Total(y, x, i) == RI(steps[i][y][x].rnc + steps[i][y][x].rc) (/) RI(64)
Series(y, x) == [i \in 1..Len(steps) |-> Total(y, x, i)]
AddsUp == \A y \in 1..(IF steps = <<>> THEN 0 ELSE shape.ny), x \in 1..(IF steps = <<>> THEN 0 ELSE shape.nx) :
    LET sel == [i \in 1..Len(steps) |-> i]
    IN RClose(RSum([i \in 1..Len(sel) |-> Fell(Series(y, x), sel, i)]), Series(y, x)[Len(steps)] (-) Series(y, x)[1], R("1e-12"), R("1e-9"))
Humid == steps = <<>> \/ \A y \in 1..shape.ny, x \in 1..shape.nx :
    LET c == steps[Len(steps)][y][x]  h == Rh(c.Q2, c.PSFC, c.T2) IN Zero \preceq h /\ h \preceq R("100")
=============================================================================
