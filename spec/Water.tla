------------------------------- MODULE Water -------------------------------
(* Percolation (bucket scheme, C04) and refreezing (C05). *)
EXTENDS Layers

RECURSIVE Bucket(_, _, _)
Bucket(c, n, carry) ==       \* carry: water (m) entering layer n
    LET w1 == c[n].w (+) (carry (/) c[n].h) IN
    IF n = Len(c) THEN [col |-> [c EXCEPT ![n].w = Zero], Q |-> w1 (.) c[n].h]
    ELSE LET e == Irreducible(c[n])
             x == RMax(w1 (-) e, Zero)
         IN Bucket([c EXCEPT ![n].w = IF Zero \prec x THEN e ELSE w1], n+1, x (.) c[n].h)
Percolate(c, supply) == Bucket(c, 1, supply)

\* C04 stated without the algorithm
PercolationLaw(c, supply, d, Q) ==
    [conserved |-> RClose(Water(c) (+) supply, Water(d) (+) Q, R("1e-9"), R("1e-12")),
     runoff    |-> R("-1e-15") \preceq Q,
     drained   |-> d[Len(d)].w = Zero,
     untouched |-> SameBut(c, d, LAMBDA a, b : a.h = b.h /\ a.T = b.T /\ a.i = b.i)]

\* --- refreezing -----------------------------------------------------------
MaxIce(K) == (K.snow_ice_threshold (-) K.air_density) (/) (K.ice_density (-) K.air_density)
RefreezeAmount(K, l) ==       \* volumetric
    LET dT  == l.T (-) K.zero_temperature
        rhs == (l.i (.) (K.spec_heat_ice (.) K.ice_density)) (+) ((l.w (.) K.water_density) (.) K.spec_heat_water)
        byDensity == RMax((MaxIce(K) (-) l.i) (.) (K.ice_density (/) K.water_density), Zero)
        byCold    == RNeg(dT (.) rhs) (/) (K.water_density (.) (K.lat_heat_melting (-) (dT (.) (K.spec_heat_ice (-) K.spec_heat_water))))
        byBulk    == RNeg(((K.spec_heat_ice (.) K.ice_density) (.) l.i) (.) dT) (/) (K.water_density (.) K.lat_heat_melting)
    IN RMin(RMin(l.w, byDensity), RMin(byCold, byBulk))
Refrozen(K, l) ==
    IF l.T \preceq K.zero_temperature /\ Zero \prec l.w
    THEN LET q  == RefreezeAmount(K, l)
             i1 == l.i (+) ((K.water_density (/) K.ice_density) (.) q)
             w1 == l.w (-) q
             dT == (q (.) (K.water_density (.) K.lat_heat_melting)) (/)
                   (((K.spec_heat_ice (.) K.ice_density) (.) i1) (+) ((K.spec_heat_water (.) K.water_density) (.) w1))
         IN [l EXCEPT !.i = i1, !.w = w1, !.T = l.T (+) dT, !.r = q (.) l.h]
    ELSE [l EXCEPT !.r = Zero]
Refreeze(K, c) == LET d == [n \in 1..Len(c) |-> Refrozen(K, c[n])]
                  IN [col |-> d, total |-> RSum([n \in 1..Len(c) |-> d[n].r])]
MassWE(K, c) == (Ice(c) (.) (K.ice_density (/) K.water_density)) (+) Water(c)
RefreezingLaw(K, c, d, total) ==
    [conserved |-> RClose(MassWE(K,c), MassWE(K,d), R("1e-9"), R("1e-12")),
     reported  |-> RClose(total, Water(c) (-) Water(d), R("1e-7"), R("1e-11")),
     limit     |-> \A n \in 1..Len(d) : d[n].T \preceq (RMax(c[n].T, K.zero_temperature) (+) R("1e-6")),
     heights   |-> SameBut(c, d, LAMBDA a, b : a.h = b.h)]
===========================================================================
