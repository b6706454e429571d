------------------------------- MODULE Radiation -------------------------------
(***************************************************************************)
(* Shortwave radiation on sloping ground from a measurement on level ground   *)
(* (Wohlfahrt et al. 2016, Ham 2005).  The sun is a unit vector with          *)
(* components west, south and up; the ground has a unit normal; the beam share *)
(* is rescaled by the ratio of the cosines of incidence and zenith angles      *)
(* (nothing if the sun is behind the ground), the diffuse share is not.        *)
(* Angles in degrees; aspect from south, west positive.                       *)
(***************************************************************************)
EXTENDS R64, Integers, Sequences
Deg == RPi (/) RI(180)
Sind(x) == RSin(x (.) Deg)
Cosd(x) == RCos(x (.) Deg)
Season(day) == R("0.9856") (.) RI(day)
\* sine of the declination, equation of time [h] (Campbell and Norman 1998)
SinDecl(day) == R("0.39785") (.) Sind((R("278.97") (+) Season(day)) (+) (R("1.9165") (.) Sind(R("356.6") (+) Season(day))))
CosDecl(day) == RSqrt(One (-) (SinDecl(day) (.) SinDecl(day)))
EqTime(day) == LET f == R("279.575") (+) Season(day)  m(x) == RI(x) (.) f IN
    (((((((R("-104.7") (.) Sind(f)) (+) (R("596.2") (.) Sind(m(2)))) (+) (R("4.3") (.) Sind(m(3)))) (-) (R("12.7") (.) Sind(m(4))))
      (-) (R("429.3") (.) Cosd(f))) (-) (RI(2) (.) Cosd(m(2)))) (+) (R("19.3") (.) Cosd(m(3)))) (/) RI(3600)
\* hour angle: true solar time (the meridian's time, the longitude's lead, the equation of time) since noon
SolarTime(lon, meridian, day, hour) == (hour (+) ((lon (-) meridian) (/) RI(15))) (+) EqTime(day)
HourAngle(lon, meridian, day, hour) == RI(15) (.) (SolarTime(lon, meridian, day, hour) (-) RI(12))
Sun(lat, lon, meridian, day, hour) ==
    LET h == HourAngle(lon, meridian, day, hour)
    IN [west  |-> CosDecl(day) (.) Sind(h),
        south |-> ((Sind(lat) (.) CosDecl(day)) (.) Cosd(h)) (-) (Cosd(lat) (.) SinDecl(day)),
        up    |-> (Sind(lat) (.) SinDecl(day)) (+) ((Cosd(lat) (.) CosDecl(day)) (.) Cosd(h))]
Normal(slope, aspect) == [west |-> Sind(slope) (.) Sind(aspect), south |-> Sind(slope) (.) Cosd(aspect), up |-> Cosd(slope)]
Dot(a, b) == ((a.west (.) b.west) (+) (a.south (.) b.south)) (+) (a.up (.) b.up)
\* the share of diffuse radiation, from the clearness of the sky (Eq. C1, Neustift)
Least == R("0.2465")
Extra(day, up) == (R("1367") (.) (One (+) (R("0.033") (.) RCos(((RI(2) (.) RPi) (.) RI(day)) (/) RI(366))))) (.) up
Clearness(day, up, measured) == measured (/) Extra(day, up)
Share(day, up, measured) ==
    LET ci == Clearness(day, up, measured)
    IN IF RI(50) \prec ci THEN Least
       ELSE (RExp(RNeg(RExp(R("0.1001") (-) (R("4.7930") (-) (R("9.4758") (.) ci))))) (.) (One (-) Least)) (+) Least
\* lower than the threshold; nothing is decided within a hair of it
Low(up, threshold)  == up \prec (Cosd(threshold) (-) R("1e-9"))
High(up, threshold) == up \succ (Cosd(threshold) (+) R("1e-9"))
Beam(sun, normal) == RMax(Zero, Dot(sun, normal)) (/) sun.up
OnGround(measured, share, sun, normal) == (measured (.) (One (-) share) (.) Beam(sun, normal)) (+) (measured (.) share)
Corrected(lat, lon, meridian, day, hour, slope, aspect, measured, threshold) ==
    LET s == Sun(lat, lon, meridian, day, hour)
    IN IF Low(s.up, threshold) THEN measured ELSE OnGround(measured, Share(day, s.up, measured), s, Normal(slope, aspect))
=============================================================================
