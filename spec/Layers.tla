------------------------------ MODULE Layers ------------------------------
(***************************************************************************)
(* The layered snow/ice column.                                             *)
(*                                                                          *)
(* A layer is [h, T, w, i, r]: height (m), temperature (K), volumetric      *)
(* liquid water content, volumetric ice fraction, water refrozen in the     *)
(* last step (m w.e.).  A column is a non-empty sequence of layers, layer 1 *)
(* at the surface.  The surface memory is [nh, nt, ot]: remembered depth of *)
(* the last significant snowfall, its age, age of the snow beneath.         *)
(* K is the record of all model constants (names as in constants.toml) plus *)
(* K.tie, the width within which a threshold comparison is left open, and   *)
(* K.ties (see Remesh).                                                     *)
(***************************************************************************)
EXTENDS R64

\* the same sequence, evaluated at once
Now(s) == <<>> \o s

\* --- derived quantities of one layer ------------------------------------
Air(l)       == RMax(Zero, (One (-) l.w) (-) l.i)
Density(K,l) == ((l.i (.) K.ice_density) (+) (l.w (.) K.water_density)) (+) (Air(l) (.) K.air_density)
Porosity(l)  == (One (-) l.i) (-) l.w
HeatCap(K,l) == ((l.i (.) K.spec_heat_ice) (+) (Air(l) (.) K.spec_heat_air)) (+) (l.w (.) K.spec_heat_water)
Irreducible(l) ==
    IF l.i \preceq R("0.23") THEN R("0.0264") (+) (R("0.0099") (.) ((One (-) l.i) (/) l.i))
    ELSE IF l.i \preceq R("0.812") THEN R("0.08") (-) (R("0.1023") (.) (l.i (-) R("0.03")))
    ELSE Zero
ColdContent(K,l) == RNeg((HeatCap(K,l) (.) Density(K,l)) (.) (l.h (.) (l.T (-) K.zero_temperature)))
Conductivity(K,l) ==
    IF K.thermal_conductivity_method = "bulk"
    THEN ((l.i (.) K.k_i) (+) (Air(l) (.) K.k_a)) (+) (l.w (.) K.k_w)
    ELSE R("0.021") (+) (R("2.5") (.) RPow(Density(K,l) (/) RI(1000), Two))
Diffusivity(K,l) == Conductivity(K,l) (/) (Density(K,l) (.) HeatCap(K,l))
\* ice fraction of a dry layer of the given density
IceFraction(K, rho) == (rho (-) ((One (-) (rho (/) K.ice_density)) (.) K.air_density)) (/) K.ice_density
Swe(K,l)     == l.h (.) (Density(K,l) (/) K.water_density)
DryLayer(K, h, rho, T) == [h |-> h, T |-> T, w |-> Zero, i |-> IceFraction(K, rho), r |-> Zero]

\* --- the snow / glacier boundary ------------------------------------------
IsSnow(K,l)   == Density(K,l) \prec K.snow_ice_threshold
NSnow(K,c)    == Len(SelectSeq(c, LAMBDA l : IsSnow(K,l)))
\* The total over "the first NSnow layers": what the code calls snow height.
SnowHeight(K,c) == RSum([n \in 1..NSnow(K,c) |-> c[n].h])

\* --- column totals ---------------------------------------------------------
Height(c)   == RSum([n \in 1..Len(c) |-> c[n].h])
Ice(c)      == RSum([n \in 1..Len(c) |-> c[n].h (.) c[n].i])
Water(c)    == RSum([n \in 1..Len(c) |-> c[n].h (.) c[n].w])
HeatSum(c)  == RSum([n \in 1..Len(c) |-> c[n].h (.) c[n].T])

\* --- comparisons that may go either way when they are a near tie ----------
\* (floating-point rounding depends on the order of evaluation, which is not
\*  part of any property; a guard "a >= b" closer than K.tie is left open)
Band(K,a,b)   == K.tie (.) RMax(R("1e-3"), RMax(RAbs(a), RAbs(b)))
MayGeq(K,a,b) == (b (-) Band(K,a,b)) \preceq a
MayLt(K,a,b)  == a \prec (b (+) Band(K,a,b))
\* exact when K.tie = 0
Near(K,a,b)   == RAbs(a (-) b) \preceq Band(K,a,b)

\* --- closeness of recorded and predicted layers ---------------------------
CloseLayer(a, b, rel) ==
    /\ RClose(a.h, b.h, rel, R("1e-12")) /\ RClose(a.T, b.T, rel, R("1e-7"))
    /\ RClose(a.w, b.w, rel, R("1e-11")) /\ RClose(a.i, b.i, rel, R("1e-11"))
CloseCol(a, b, rel) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : CloseLayer(a[n], b[n], rel)
SameBut(a, b, F(_,_)) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : F(a[n], b[n])
Defined(l) == ~RIsNaN(l.h) /\ ~RIsNaN(l.T) /\ ~RIsNaN(l.w) /\ ~RIsNaN(l.i)
===========================================================================
