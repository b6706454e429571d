------------------------------- MODULE Stakes -------------------------------
(***************************************************************************)
(* Stake evaluation (C25).  Positions are geodetic coordinates in degrees;    *)
(* the nearest cell is the one at the smallest straight distance between the  *)
(* points of the WGS 84 ellipsoid.  Cells are pairs <<row, column>>.          *)
(***************************************************************************)
EXTENDS R64, Sequences, Integers, FiniteSets
Rad(d) == d (.) (RPi (/) RI(180))
A == R("6378.137")
E2 == R("6.69437999014e-3")
Point(lat, lon) ==
    LET s == RSin(Rad(lat))  rn == A (/) RSqrt(One (-) (E2 (.) (s (.) s))) IN
    <<(rn (.) RCos(Rad(lat))) (.) RCos(Rad(lon)), (rn (.) RCos(Rad(lat))) (.) RSin(Rad(lon)), (rn (.) (One (-) E2)) (.) s>>
Sq(x) == x (.) x
Chord(p, q) == RSqrt((Sq(p[1] (-) q[1]) (+) Sq(p[2] (-) q[2])) (+) Sq(p[3] (-) q[3]))
\* the nearest cells of the grid (lat, lon: rows of numbers); several when they are equally near
NearCells(lat, lon, slat, slon) ==
    LET P == Point(slat, slon)
        Cells == {<<y, x>> : y \in 1..Len(lat), x \in 1..Len(lat[1])}
        D == [c \in Cells |-> Chord(P, Point(lat[c[1]][c[2]], lon[c[1]][c[2]]))]
        best == CHOOSE c \in Cells : \A d \in Cells : D[c] \preceq D[d]
    IN {c \in Cells : D[c] \preceq (D[best] (+) R("1e-6"))}
\* sum of the first n entries
RECURSIVE Cum(_, _)
Cum(s, n) == IF n = 0 THEN Zero ELSE Cum(s, n - 1) (+) s[n]
\* what a stake is compared with: mb series or snow heights of a cell
Simulated(obs, mb, sh, n) == IF obs = "mb" THEN Cum(mb, n) ELSE sh[n]
\* root of the mean square of a sequence of differences (NaN when empty)
Rms(d) == IF d = <<>> THEN RNaN
          ELSE LET RECURSIVE go(_) go(n) == IF n = 0 THEN Zero ELSE go(n - 1) (+) Sq(d[n]) IN RSqrt(go(Len(d)) (/) RI(Len(d)))
=============================================================================
