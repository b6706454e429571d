---------------------------- MODULE Compaction ----------------------------
(* Densification of the snow layers (C07). *)
EXTENDS Layers

\* overburden of layer n: half of the top layer plus all full layers above n
\* among the layers that take part (the top one counts when it takes part)
Active(K, c, n)  == n <= NSnow(K,c) /\ IsSnow(K, c[n]) /\ K.minimum_snow_layer_height \prec c[n].h
RECURSIVE Load(_, _, _, _)
Load(K, c, n, g) ==
    IF n = 0 THEN Zero
    ELSE LET up == Load(K, c, n-1, g)
         IN IF ~Active(K, c, n) THEN up
            ELSE up (+) (IF n = 1 THEN (g (.) Density(K,c[1])) (.) (c[1].h (/) Two)
                                  ELSE (g (.) Density(K,c[n-1])) (.) c[n-1].h)
Squeeze(l, x) ==     \* relative compaction x: height shrinks by x, contents grow (half each when wet)
    LET dry == l.w = Zero
        y == IF dry THEN x ELSE x (/) Two
    IN [l EXCEPT !.i = (One (+) y) (.) @, !.w = IF dry THEN @ ELSE (One (+) y) (.) @, !.h = (One (-) x) (.) @]
BooneRate(K, l, load, dt) ==
    LET rho == Density(K, l)
        cold == K.zero_temperature (-) l.T
        eta  == R("3.7e7") (.) RExp((R("0.081") (.) cold) (+) (R("0.018") (.) rho))
    IN (((load (.) R("9.81")) (/) eta)
        (+) (R("2.8e-6") (.) RExp(RNeg(R("0.042") (.) cold) (-) (R("0.046") (.) RMax(Zero, rho (-) RI(150)))))) (.) dt
VionnetRate(K, l, stress, dt) ==
    LET rho == Density(K, l)
        f1  == One (/) (One (+) (RI(60) (.) l.w))
        eta == (((f1 (.) R("7.62237e6")) (.) (rho (/) RI(250)))
               (.) RExp((R("0.1") (.) (R("273.14") (-) l.T)) (+) (R("0.023") (.) rho)))
    IN (stress (/) eta) (.) dt
Relax(K, l, dt) ==
    LET rho == Density(K, l)
        x   == ((One (/) R("8e5")) (.) (RI(600) (-) rho)) (.) dt
        l1  == [l EXCEPT !.i = (RI(600) (+) ((rho (-) RI(600)) (.) RExp(RNeg(dt (/) R("8e5"))))) (/) K.ice_density]
    IN IF Zero \prec (x (/) rho)
       THEN [l1 EXCEPT !.h = (One (-) (x (/) Density(K, l1))) (.) l.h]    \* the code divides by the NEW density
       ELSE l
Compact(K, c, slope, dt) ==
    CASE K.densification_method = "Boone" ->
            [n \in 1..Len(c) |-> IF Active(K,c,n) THEN Squeeze(c[n], BooneRate(K, c[n], Load(K,c,n,One), dt)) ELSE c[n]]
      [] K.densification_method = "Vionnet" ->
            [n \in 1..Len(c) |-> IF Active(K,c,n)
                THEN Squeeze(c[n], VionnetRate(K, c[n], Load(K,c,n, R("9.81") (.) RCos(slope)), dt)) ELSE c[n]]
      [] K.densification_method = "empirical" ->
            [n \in 1..Len(c) |-> IF n <= NSnow(K,c) THEN Relax(K, c[n], dt) ELSE c[n]]
      [] OTHER -> c
\* the overburden laws are explicit in time: within their domain a layer loses
\* less than its height in one step
CompactInDomain(K, c, slope, dt) ==
    \/ K.densification_method \notin {"Boone", "Vionnet"}
    \/ \A n \in 1..Len(c) : Active(K,c,n) =>
          (IF K.densification_method = "Boone" THEN BooneRate(K, c[n], Load(K,c,n,One), dt)
           ELSE VionnetRate(K, c[n], Load(K,c,n, R("9.81") (.) RCos(slope)), dt)) \prec R("0.9")
CompactionLaw(K, c, d) ==
    [monotone  |-> SameBut(c, d, LAMBDA a, b : b.h \preceq (a.h (.) R("1.0000000000001")) /\ a.i \preceq (b.i (+) R("1e-13"))),
     selective |-> Len(c) = Len(d) /\ \A n \in 1..Len(c) : (n > NSnow(K,c)) => (d[n].h = c[n].h /\ d[n].i = c[n].i /\ d[n].w = c[n].w),
     untouched |-> SameBut(c, d, LAMBDA a, b : a.T = b.T)]
===========================================================================
