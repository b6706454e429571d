------------------------------ MODULE Surface ------------------------------
(* Albedo (C09) and roughness length (C10). *)
EXTENDS Snow

SnowTop(K, c) == Density(K, c[1]) \preceq K.snow_ice_threshold
Hours(m) == m.nt (/) RI(3600)
DepthDecay(K, a, h) == a (+) ((K.albedo_ice (-) a) (.) RExp(RNeg(h) (/) (K.albedo_mod_snow_depth (/) RI(100))))
\* [alb, snow, mem]: surface albedo, snow albedo carried on, memory carried on
Oerlemans(K, c, m, a) ==
    LET f == FallBack(K, m)
        s == K.albedo_firn (+) ((K.albedo_fresh_snow (-) K.albedo_firn)
                                 (.) RExp(RNeg(Hours(f)) (/) (K.albedo_mod_snow_aging (.) RI(24))))
    IN [alb |-> IF SnowTop(K,c) THEN DepthDecay(K, s, SnowHeight(K,c)) ELSE K.albedo_ice, snow |-> a, mem |-> f]
TStar(K, Ts) ==
    IF K.zero_temperature \preceq Ts THEN K.t_star_wet
    ELSE K.t_star_dry (+) ((K.zero_temperature (-) RMax(Ts, K.t_star_cutoff)) (.) K.t_star_K)
Bougamont(K, c, m, Ts, a) ==
    LET f == FallBack(K, m)
        days == K.dt (/) RI(86400)
        dec == a (-) (((a (-) K.albedo_firn) (.) days) (/) TStar(K, Ts))
        s == IF Hours(f) = Zero THEN K.albedo_fresh_snow ELSE dec
    IN IF SnowTop(K,c) THEN [alb |-> DepthDecay(K, s, SnowHeight(K,c)), snow |-> s, mem |-> f]
       ELSE [alb |-> K.albedo_ice, snow |-> a, mem |-> f]
Albedo(K, c, m, Ts, a) == IF K.albedo_method = "Bougamont05" THEN Bougamont(K, c, m, Ts, a) ELSE Oerlemans(K, c, m, a)

Roughness(K, c, m) ==          \* metres
    (IF SnowTop(K,c) THEN RMin(K.roughness_fresh_snow (+) (K.aging_factor_roughness (.) Hours(m)), K.roughness_firn)
     ELSE K.roughness_ice) (/) RI(1000)
MinAlb(K) == RMin(K.albedo_ice, RMin(K.albedo_firn, K.albedo_fresh_snow))
MaxAlb(K) == RMax(K.albedo_ice, RMax(K.albedo_firn, K.albedo_fresh_snow))
===========================================================================
