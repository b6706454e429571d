----------------------------- MODULE Shortwave -----------------------------
(* Penetrating shortwave radiation and subsurface melt (C08). *)
EXTENDS Layers

Top(K, c)   == Density(K, c[1]) \preceq K.snow_ice_threshold      \* snow surface (closed comparison here)
Penetrating(K, c, sw) == sw (.) (IF Top(K,c) THEN R("0.1") ELSE R("0.2"))
RECURSIVE Above(_, _)
Above(c, n) == IF n <= 1 THEN Zero ELSE Above(c, n-1) (+) c[n-1].h
Depth(c, n) == Above(c, n) (+) (c[n].h (/) Two)                    \* centre of layer n; layer 0 is the surface
\* energy absorbed between the centres of layers n-1 and n
Absorbed(K, c, sw, n) ==
    LET k == RNeg(IF Top(K,c) THEN R("17.1") ELSE R("2.5"))
        e(m) == IF m = 0 THEN One ELSE RExp(k (.) Depth(c, m))
    IN Penetrating(K, c, sw) (.) RAbs(e(n) (-) e(n-1))
Warmed(K, c, sw, dt, n) ==
    c[n].T (+) ((Absorbed(K,c,sw,n) (/) (Density(K,c[n]) (.) K.spec_heat_ice)) (.) (dt (/) c[n].h))
\* [l, gone, melt]: layer n after absorption; melt in m w.e.
SwLayer(K, c, sw, dt, n) ==
    LET l == c[n]
        Tr == Warmed(K, c, sw, dt, n)
        A  == (K.spec_heat_ice (.) K.ice_density) (/) (K.water_density (.) K.lat_heat_melting)
        dw == (A (.) (Tr (-) K.zero_temperature)) (.) l.i
        dh == ((K.water_density (/) K.ice_density) (.) dw) (/) l.i
        h1 == (One (-) dh) (.) l.h
    IN IF n = Len(c) THEN [l |-> l, melt |-> Zero]
       ELSE IF Tr \preceq K.zero_temperature THEN [l |-> [l EXCEPT !.T = Tr], melt |-> Zero]
       ELSE [l |-> [l EXCEPT !.T = K.zero_temperature, !.h = h1, !.w = ((l.w (+) dw) (.) l.h) (/) h1],
             melt |-> dw (.) l.h]
\* no layer vanishes completely (the model's domain)
SwInDomain(K, c, sw, dt) ==
    \A n \in 1..(Len(c)-1) :
        ((((K.spec_heat_ice (/) K.lat_heat_melting) (.) (Warmed(K,c,sw,dt,n) (-) K.zero_temperature))) \prec R("0.999"))
SwAbsorb(K, c, sw, dt) ==
    LET r == [n \in 1..Len(c) |-> SwLayer(K, c, sw, dt, n)]
    IN [col |-> [n \in 1..Len(c) |-> r[n].l], melt |-> RSum([n \in 1..Len(c) |-> r[n].melt]), pen |-> Penetrating(K,c,sw)]
IceWE(K, c) == Ice(c) (.) (K.ice_density (/) K.water_density)
SwLaw(K, c, sw, d, melt, pen) ==
    [share     |-> RClose(pen, Penetrating(K,c,sw), R("1e-9"), R("1e-12")),
     cap       |-> \A n \in 1..Len(d) : n <= Len(c) => d[n].T \preceq (RMax(c[n].T, K.zero_temperature) (+) R("1e-9")),
     deepest   |-> CloseLayer(c[Len(c)], d[Len(d)], R("1e-12")),
     fraction  |-> SameBut(c, d, LAMBDA a, b : RClose(a.i, b.i, R("1e-12"), Zero)),
     mass      |-> RClose((IceWE(K,c) (+) Water(c)), (IceWE(K,d) (+) Water(d)), R("1e-9"), R("1e-12")),
     reported  |-> RClose(melt, IceWE(K,c) (-) IceWE(K,d), R("1e-6"), R("1e-11"))]
===========================================================================
