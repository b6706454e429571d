------------------------------- MODULE Snow -------------------------------
(***************************************************************************)
(* Precipitation, fresh snow, the snow-age tracker and surface melt.        *)
(* The surface memory is m = [nh, nt, ot] (see Layers).                     *)
(***************************************************************************)
EXTENDS Layers

\* --- snow age tracker (C03) -------------------------------------------------
Age(m, dt)        == [m EXCEPT !.nt = @ (+) dt, !.ot = @ (+) dt]
NewSnow(m, depth) == [nh |-> depth, nt |-> Zero, ot |-> m.nt]
\* a snowfall of the given depth (0 for none) over one time step
Tracked(K, m, depth, dt) ==
         (IF MayGeq(K, depth, K.minimum_snowfall) THEN {NewSnow(m, depth)} ELSE {})
    \cup (IF MayLt(K, depth, K.minimum_snowfall) THEN {Age(m, dt)} ELSE {})
\* the fresh snow has gone before the albedo ageing time has elapsed
FallBack(K, m) == LET hours == m.nt (/) RI(3600) IN
    IF hours \prec (K.albedo_mod_snow_aging (.) RI(24)) /\ m.nh \preceq Zero THEN [m EXCEPT !.nt = m.ot] ELSE m

\* --- snowfall (C02) ----------------------------------------------------------
AddSnow(K, c, h, rho, T, w) == <<[DryLayer(K, h, rho, T) EXCEPT !.w = w]>> \o c

\* --- melt (C02) --------------------------------------------------------------
\* Remove the water-equivalent mass q from the top: [col, out] with the liquid
\* water of the removed layers.
RECURSIVE Melt(_, _, _, _)
Melt(K, c, q, out) ==
    IF ~(Zero \prec q) \/ c = <<>> THEN {[col |-> c, out |-> out, left |-> q]}
    ELSE LET s == Swe(K, c[1]) IN
          (IF q \prec s
           THEN {[col |-> <<[c[1] EXCEPT !.h = (s (-) q) (/) (Density(K,c[1]) (/) K.water_density)]>> \o Tail(c),
                  out |-> out, left |-> Zero]} ELSE {})
     \cup (IF MayGeq(K, q, s)
           THEN Melt(K, Tail(c), q (-) s, out (+) (c[1].w (.) c[1].h)) ELSE {})

\* --- precipitation partition (C14) -------------------------------------------
FreshDensity(K, T2, U2) ==
    IF K.densification_method = "constant" THEN K.constant_density
    ELSE RMax((R("109") (+) (RI(6) (.) (T2 (-) R("273.16")))) (+) (RI(26) (.) RSqrt(U2)), RI(50))
SolidShare(K, T2) ==
    R("0.5") (.) (RNeg(RTanh(((T2 (-) K.zero_temperature) (-) K.center_snow_transfer_function)
                              (.) K.spread_snow_transfer_function)) (+) One)
\* f = [T2, U2, RRR, SNOWFALL] with None for an absent field; forceTP: ignore supplied snowfall
RawPrecip(K, f, forceTP) ==
    LET rho == FreshDensity(K, f.T2, f.U2)
        useS == f.SNOWFALL # None /\ ~forceTP
        S == IF useS THEN f.SNOWFALL (.) K.mult_factor_RRR
             ELSE ((((f.RRR (.) K.mult_factor_RRR) (/) RI(1000)) (.) (K.water_density (/) rho)) (.) SolidShare(K, f.T2))
        P == IF f.RRR = None THEN Zero
             ELSE (f.RRR (.) K.mult_factor_RRR) (-) ((S (.) (rho (/) K.water_density)) (.) RI(1000))
    IN [snow |-> S, rain |-> P, rho |-> rho]
\* the allowed [snow, rain, rho] after the minimum thresholds (m, mm, kg m-3)
Precip(K, f, forceTP) ==
    LET p == RawPrecip(K, f, forceTP)
        q == (K.minimum_snowfall (.) (p.rho (/) K.water_density)) (.) RI(1000)
        snows ==      (IF MayGeq(K, p.snow, K.minimum_snowfall) THEN {p.snow} ELSE {})
                 \cup (IF MayLt(K, p.snow, K.minimum_snowfall) THEN {Zero} ELSE {})
        rains ==      (IF MayGeq(K, p.rain, q) THEN {p.rain} ELSE {})
                 \cup (IF MayLt(K, p.rain, q) THEN {Zero} ELSE {})
    IN {[snow |-> s, rain |-> r, rho |-> p.rho] : s \in snows, r \in rains}
===========================================================================
