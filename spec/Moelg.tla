--------------------------------- MODULE Moelg ---------------------------------
(***************************************************************************)
(* Shortwave radiation in complex terrain (Moelg et al. 2009): direct         *)
(* radiation on sloping ground unless the ground turns away from the sun or    *)
(* the surrounding terrain hides it, and diffuse radiation from the part of    *)
(* the sky that can be seen.  Terrain is [lat, lon, z]: latitudes from north   *)
(* to south, longitudes from west to east, heights z[y][x].  Angles in         *)
(* degrees; directions and aspects clockwise from north.                       *)
(***************************************************************************)
EXTENDS R64, Integers, Sequences
Deg == RPi (/) RI(180)
Sind(x) == RSin(x (.) Deg)
Cosd(x) == RCos(x (.) Deg)
Asind(x) == RAsin(x) (/) Deg
Clip(x) == RMax(RNeg(One), RMin(One, x))
Acosd(x) == RI(90) (-) Asind(Clip(x))
Atand(x) == RAtan(x) (/) Deg
Poly(c, x) == RSum([i \in 1..Len(c) |-> c[i] (.) x[i]])
\* ---------------------------------------------------------------- the sun
\* day of the year 1..366, the last like the one before
Common(day) == IF day > 365 THEN 365 ELSE day
DayAngle(day) == ((RI(2) (.) RPi) (.) RI(Common(day) - 1)) (/) RI(365)
Waves(day) == LET a == DayAngle(day) IN <<One, RCos(a), RSin(a), RCos(Two (.) a), RSin(Two (.) a), RCos(RI(3) (.) a), RSin(RI(3) (.) a)>>
\* declination [rad], correction for the distance to the sun
Declination(day) == Poly(<<R("0.006918"), R("-0.399912"), R("0.070257"), R("-0.006758"), R("0.000907"), R("-0.002697"), R("0.00148")>>, Waves(day))
Distance(day) == Poly(<<R("1.00011"), R("0.034221"), R("0.00128"), R("0.000719"), R("0.000077"), Zero, Zero>>, Waves(day))
\* by which the sun is fast [deg]
Fast(day) == LET x == (R("0.9856") (.) RI(Common(day))) (-) R("2.72")  m == x (.) Deg
             IN ((R("-7.66") (.) RSin(m)) (-) (R("9.87") (.) RSin(((Two (.) m) (+) (R("24.99") (.) Deg)) (+) ((R("3.83") (.) Deg) (.) RSin(m))))) (.) R("0.25")
\* hour angle in the middle of the step that ends at the full hour, east positive
HourAngle(day, hour, step, lead) ==
    (((RI(180) (+) ((RI(step) (/) RI(3600)) (.) R("7.5"))) (-) (RI(15) (.) RI(hour))) (-) Fast(day)) (+) lead
Sun(lat, day, hour, step, lead) ==
    LET d == Declination(day)  w == HourAngle(day, hour, step, lead)
        up == (RSin(d) (.) Sind(lat)) (+) ((RCos(d) (.) Cosd(lat)) (.) Cosd(w))
        height == RAsin(up)
        aside == Acosd((((up (.) Sind(lat)) (-) RSin(d)) (/) RCos(height)) (/) Cosd(lat))        \* from south
    IN [up |-> up, hour |-> w, decl |-> d, height |-> height (/) Deg,
        from |-> RI(180) (-) (IF Sind(w) \prec Zero THEN RNeg(aside) ELSE aside)]
Shines(up) == R("0.01") \prec up
\* ------------------------------------------------------------ the horizon
Rows(g) == Len(g.lat)
Cols(g) == Len(g.lon)
North(g) == g.lat[1]
South(g) == g.lat[Rows(g)]
West(g) == g.lon[1]
East(g) == g.lon[Cols(g)]
Reach(g) == RSqrt(((North(g) (-) South(g)) (.) (North(g) (-) South(g))) (+) ((East(g) (-) West(g)) (.) (East(g) (-) West(g))))
Steps(g) == RTrunc((Reach(g) (.) RI(Rows(g))) (/) (North(g) (-) South(g)))
\* n equal parts from a to b, the i-th (from 0)
Between(a, b, n, i) == IF i = 0 THEN a ELSE IF i = n - 1 THEN b ELSE (RI(i) (.) ((b (-) a) (/) RI(n - 1))) (+) a
RECURSIVE Inside(_, _, _, _, _, _)
Inside(a, b, n, lo, hi, i) == IF i >= n THEN n ELSE LET p == Between(a, b, n, i) IN IF lo \prec p /\ p \prec hi THEN Inside(a, b, n, lo, hi, i+1) ELSE i
\* the closest of an ordered axis, the first of two
RECURSIVE Closest(_, _, _, _)
Closest(s, p, i, best) == IF i > Len(s) THEN best
                          ELSE Closest(s, p, i+1, IF RAbs(s[i] (-) p) \prec RAbs(s[best] (-) p) THEN i ELSE best)
\* to the nearest whole number, halves to even
Even(x) == LET f == RTrunc(RFloor(x))  r == x (-) RI(f)
           IN IF r \prec R("0.5") THEN f ELSE IF R("0.5") \prec r THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Arc(la, lo, lb, mo) ==
    LET dy == RSin(((lb (-) la) (.) Deg) (/) Two)  dx == RSin(((mo (-) lo) (.) Deg) (/) Two)
    IN R("12742000") (.) RAsin(RSqrt((dy (.) dy) (+) ((Cosd(la) (.) Cosd(lb)) (.) (dx (.) dx))))
\* steepest view in a direction; nothing hides the sky where the border is too near
Horizon(g, y, x, dir) ==
    LET far == Reach(g)  n == Steps(g)
        a == g.lat[y]  b == a (+) (Sind(RI(90) (-) dir) (.) far)
        c == g.lon[x]  d == c (+) (Cosd(RI(90) (-) dir) (.) far)
        rows == Inside(a, b, n, South(g), North(g), 0)
        cols == Inside(c, d, n, West(g), East(g), 0)
        m == IF rows < cols THEN rows ELSE cols
        ye == Closest(g.lat, Between(a, b, n, m-1), 1, 1)
        xe == Closest(g.lon, Between(c, d, n, m-1), 1, 1)
        Seen(i) == LET yi == 1 + Even(Between(RI(y-1), RI(ye-1), m, i))  xi == 1 + Even(Between(RI(x-1), RI(xe-1), m, i))
                   IN Atand((g.z[yi][xi] (-) g.z[y][x]) (/) Arc(a, c, Between(a, b, n, i), Between(c, d, n, i)))
        Most[i \in 1..(m-1)] == IF i = 1 THEN Seen(1) ELSE RMax(Most[i-1], Seen(i))
    IN IF m < 2 THEN RI(-90) ELSE Most[m-1]
Azimuths == [i \in 1..36 |-> RI(10 * i)]
Heights  == [i \in 1..44 |-> RI(2 * i)]
\* the share of the directions of the sky in front of the ground and above the horizon
View(g, y, x, slope, aspect) ==
    LET Open(dir, h) == LET a == dir  e == h IN Zero \prec (((Cosd(e) (.) Sind(slope)) (.) Cosd(aspect (-) a)) (+) (Sind(e) (.) Cosd(slope)))
        Of[i \in 0..36] == IF i = 0 THEN 0 ELSE
            LET hor == Horizon(g, y, x, Azimuths[i])
                Up[j \in 0..44] == IF j = 0 THEN 0 ELSE Up[j-1] + (IF hor \preceq Heights[j] /\ Open(Azimuths[i], Heights[j]) THEN 1 ELSE 0)
            IN Of[i-1] + Up[44]
    IN RI(Of[36]) (/) RI(36 * 44)
\* ---------------------------------------------------------- the atmosphere
\* vapour pressure [hPa] from temperature [K] and relative humidity [%] (Ambaum 2020)
Saturation(t) ==
    LET cp == R("4219.4") (-) R("1860.078011865639")  rv == R("461.52311572606084")  t0 == R("273.16")  lv == R("2500840")
    IN (R("6.112") (.) RPow(t0 (/) t, cp (/) rv)) (.) RExp(((lv (/) t0) (-) ((lv (-) (cp (.) (t (-) t0))) (/) t)) (/) rv)
Vapour(t, rh) == Saturation(t) (.) (rh (/) RI(100))
Air(up, t, p, rh, z) ==
    LET m == RI(35) (/) RSqrt((RI(1224) (.) (up (.) up)) (+) One)
        pm == (p (/) R("1013.25")) (.) m
        gases == RExp(R("-0.0127") (.) RPow(m, R("0.26")))
        molecules == RExp((R("-0.09030") (.) RPow(pm, R("0.84"))) (.) ((One (+) pm) (-) RPow(pm, R("1.01"))))
        dust == RPow(RMin(One, (R("2.4845e-5") (.) z) (+) R("0.87764")), m)
        swallowed == One (-) ((R("0.1") (.) ((One (-) pm) (+) RPow(pm, R("1.06")))) (.) (One (-) dust))
        w == m (.) ((R("46.5") (.) Vapour(t, rh)) (/) t)
        water == One (-) ((R("2.4959") (.) w) (/) (RPow(One (+) (R("79.034") (.) w), R("0.6828")) (+) (R("6.385") (.) w)))
    IN [direct |-> ((molecules (.) gases) (.) dust) (.) water,
        diffuse |-> ((((R("0.66") (.) gases) (.) water) (.) swallowed) (.) (One (-) ((molecules (.) dust) (/) swallowed))) (/) ((One (-) pm) (+) RPow(pm, R("1.02")))]
\* cosine of the angle between the sun and the normal of the ground (Iqbal 1983)
Incidence(lat, s, slope, aspect) ==
    LET g == RI(180) (-) aspect
        a == (Cosd(slope) (.) Sind(lat)) (-) ((Cosd(lat) (.) Cosd(g)) (.) Sind(slope))
        b == ((Sind(lat) (.) Cosd(g)) (.) Sind(slope)) (+) (Cosd(slope) (.) Cosd(lat))
        c == Sind(g) (.) Sind(slope)
    IN ((a (.) RSin(s.decl)) (+) ((b (.) RCos(s.decl)) (.) Cosd(s.hour))) (+) ((c (.) RCos(s.decl)) (.) Sind(s.hour))
\* radiation on a glacier cell; w is the weather there
Radiation(lat, day, s, w, slope, aspect, shaded, view) ==
    LET air == Air(s.up, w.T2, w.PRES, w.RH2, w.z)
        outside == R("1367") (.) Distance(day)
        beam == IF shaded THEN Zero ELSE (outside (.) RMax(Zero, Incidence(lat, s, slope, aspect))) (.) air.direct
        clear == (outside (.) s.up) (.) air.diffuse
        global == ((outside (.) s.up) (.) air.direct) (+) clear
        sky == IF w.N = Zero THEN clear ELSE global (.) ((((R("30.4") (/) RI(100)) (.) w.N)) (+) R("0.046"))
    IN IF ~Shines(s.up) THEN Zero ELSE (beam (.) (One (-) w.N)) (+) (sky (.) view)
=============================================================================
