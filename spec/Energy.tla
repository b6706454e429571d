------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* Surface energy balance: bulk fluxes at a given surface temperature (C12) *)
(* and which surface temperatures are acceptable (C11).                     *)
(*                                                                          *)
(* f is the record of the step's inputs: dt, z, z0, T2, RH2, PRES, U2, RAIN *)
(* (mm), SLOPE (degrees), LWin, N (None when absent), SW (non-penetrating *)
(* net shortwave), B1, B2 (temperatures at depths zlt1, zlt2) and lam       *)
(* (conductivity of the top layer).                                         *)
(***************************************************************************)
EXTENDS Layers

\* --- temperature at a given depth -----------------------------------------
\* linear through the lower edge nearest to the depth and its neighbour on the
\* other side of the depth
RECURSIVE Edge(_, _)
Edge(c, n) == IF n = 0 THEN Zero ELSE Edge(c, n-1) (+) c[n].h
EdgesOf(c) == LET RECURSIVE go(_, _)
                  go(n, acc) == IF n > Len(c) THEN acc
                                ELSE go(n+1, Append(acc, (IF n = 1 THEN Zero ELSE acc[n-1]) (+) c[n].h))
              IN go(1, <<>>)
SubT(K, c, depth) ==
    LET z == EdgesOf(c)
        d == [n \in 1..Len(c) |-> RAbs(z[n] (-) depth)]
        RECURSIVE mn(_)
        mn(n) == IF n = 1 THEN d[1] ELSE RMin(mn(n-1), d[n])
        m == mn(Len(c))
        at(n) == LET o == IF depth \prec z[n] THEN n - 1 ELSE n + 1
                 IN c[n].T (+) (((c[n].T (-) c[o].T) (/) (z[n] (-) z[o])) (.) (depth (-) z[n]))
    IN {at(n) : n \in {j \in 1..Len(c) : /\ Near(K, d[j], m)
                                         /\ IF depth \prec z[j] THEN j > 1 ELSE j < Len(c)}}

\* --- radiation, humidity ---------------------------------------------------
SatVap(T) == R("6.112") (.) RExp(IF R("273.16") \preceq T
    THEN (R("17.67") (.) (T (-) R("273.16"))) (/) (T (-) R("29.66"))
    ELSE (R("22.46") (.) (T (-) R("273.16"))) (/) (T (-) R("0.55")))
LwIn(K, f) ==
    IF f.LWin # None \/ f.N = None THEN f.LWin
    ELSE LET ea  == (f.RH2 (.) SatVap(f.T2)) (/) RI(100)
             ecs == R("0.23") (+) (R("0.433") (.) RPow((RI(100) (.) ea) (/) f.T2, R("0.125")))
             n2  == RPow(f.N, Two)
         IN (((ecs (.) (One (-) n2)) (+) (R("0.984") (.) n2)) (.) K.sigma) (.) RPow(f.T2, RI(4))
LwOut(K, T0) == RNeg((K.surface_emission_coeff (.) K.sigma) (.) RPow(T0, RI(4)))
Mixing(p, e, rh) == ((rh (.) R("0.622")) (.) (e (/) (p (-) e))) (/) RI(100)
Q2(f)  == Mixing(f.PRES, SatVap(f.T2), f.RH2)
Q0(f, T0) == Mixing(f.PRES, SatVap(T0), RI(100))
AirDensity(f) == (f.PRES (.) RI(100)) (/) (R("287.058") (.) (f.T2 (.) (One (+) (R("0.608") (.) Q2(f)))))
LatHeat(K, T0) == IF K.zero_temperature \preceq T0 THEN K.lat_heat_vaporize ELSE K.lat_heat_sublimation

\* --- turbulent fluxes -------------------------------------------------------
CosSlope(f) == RCos(f.SLOPE (.) (RPi (/) RI(180)))
Sens(K, f, T0, C) == ((((AirDensity(f) (.) K.spec_heat_air) (.) C) (.) f.U2) (.) (f.T2 (-) T0)) (.) CosSlope(f)
Lat(K, f, T0, C)  == ((((AirDensity(f) (.) LatHeat(K,T0)) (.) C) (.) f.U2) (.) (Q2(f) (-) Q0(f,T0))) (.) CosSlope(f)
Kar2 == RPow(R("0.41"), Two)
\* Richardson scheme
RiNum(f, T0) == IF f.U2 = Zero THEN Zero
                ELSE ((R("9.81") (.) (f.T2 (-) T0)) (.) f.z) (/) (f.T2 (.) RPow(f.U2, Two))
RiPhis(K, r) ==  (IF MayGeq(K, R("0.01"), r) THEN {One} ELSE {})
            \cup (IF MayLt(K, R("0.01"), r) /\ MayGeq(K, R("0.2"), r) THEN {RPow(One (-) (RI(5) (.) r), Two)} ELSE {})
            \cup (IF MayLt(K, R("0.2"), r) THEN {Zero} ELSE {})
RiFlux(K, f, T0) ==
    LET zt == f.z0 (/) RI(100)  zq == f.z0 (/) RI(10)
        ct == Kar2 (/) (RLn(f.z (/) f.z0) (.) RLn(f.z (/) zt))
        cq == Kar2 (/) (RLn(f.z (/) f.z0) (.) RLn(f.z (/) zq))
    IN {[H |-> p (.) Sens(K,f,T0,ct), LE |-> p (.) Lat(K,f,T0,cq), MOL |-> RNaN] : p \in RiPhis(K, RiNum(f,T0))}
\* Monin-Obukhov scheme
PhiStable(K, z, L) ==
    LET s == z (/) L IN
    IF Zero \prec s /\ s \preceq One THEN RI(-5) (.) s
    ELSE IF One \prec s THEN IF K.coupled THEN RI(-5) ELSE (RI(-4) (.) (One (+) RLn(s))) (-) s
    ELSE Zero
PhiM(K, z, L) ==
    IF Zero \prec L THEN PhiStable(K, z, L)
    ELSE IF L \prec Zero THEN
        LET x == RPow(One (-) ((RI(16) (.) z) (/) L), R("0.25"))
        IN (((Two (.) RLn((One (+) x) (/) Two)) (+) RLn((One (+) RPow(x,Two)) (/) Two)) (-) (Two (.) RAtan(x))) (+) (RPi (/) Two)
    ELSE Zero
PhiT(K, z, L) ==
    IF Zero \prec L THEN PhiStable(K, z, L)
    ELSE IF L \prec Zero THEN
        LET x == RPow(One (-) ((R("19.3") (.) z) (/) L), R("0.25")) IN Two (.) RLn((One (+) RPow(x,Two)) (/) Two)
    ELSE Zero
RECURSIVE MoIter(_, _, _, _, _, _)
MoIter(K, f, T0, L, H0, n) ==
    LET lz  == RLn(f.z (/) f.z0)
        ust == (R("0.41") (.) f.U2) (/) (lz (-) PhiM(K, f.z, L))
        dp  == PhiT(K, f.z, L) (-) PhiT(K, f.z0, L)
        cd  == Kar2 (/) RPow((lz (-) PhiM(K, f.z, L)) (-) PhiM(K, f.z0, L), Two)
        ct  == (R("0.41") (.) RSqrt(cd)) (/) (RLn(f.z (/) (f.z0 (/) RI(100))) (-) dp)
        cq  == (R("0.41") (.) RSqrt(cd)) (/) (RLn(f.z (/) (f.z0 (/) RI(10))) (-) dp)
        H   == Sens(K, f, T0, ct)
        LE  == Lat(K, f, T0, cq)
        L1  == IF H = Zero THEN Zero
               ELSE ((((AirDensity(f) (.) K.spec_heat_air) (.) RPow(ust, RI(3))) (.) f.T2)) (/) ((R("0.41") (.) R("9.81")) (.) H)
        diff == IF n = 0 THEN RInf ELSE RAbs(H0 (-) H)
        here == {[H |-> H, LE |-> LE, MOL |-> L1]}
    IN   (IF n > 5 \/ (n > 0 /\ MayLt(K, diff, R("0.1"))) THEN here ELSE {})
    \cup (IF n <= 5 /\ (n = 0 \/ MayGeq(K, diff, R("0.1"))) THEN MoIter(K, f, T0, L1, H, n+1) ELSE {})
Turbulent(K, f, T0) == IF K.stability_correction = "MO" THEN MoIter(K, f, T0, Zero, RInf, 0) ELSE RiFlux(K, f, T0)

\* --- ground and rain heat ---------------------------------------------------
Ground(K, f, T0) ==
    LET a == K.zlt1  b == K.zlt2 (-) K.zlt1
    IN f.lam (.) (((a (/) (b (+) a)) (.) ((f.B2 (-) f.B1) (/) b)) (+) ((b (/) (b (+) a)) (.) ((f.B1 (-) T0) (/) a)))
RainHeat(K, f, T0) == ((K.water_density (.) K.spec_heat_water) (.) ((f.RAIN (/) RI(1000)) (/) f.dt)) (.) (f.T2 (-) T0)

Fluxes(K, f, T0) ==
    {[LWin |-> LwIn(K,f), LWout |-> LwOut(K,T0), H |-> t.H, LE |-> t.LE, MOL |-> t.MOL,
      B |-> Ground(K,f,T0), QRR |-> RainHeat(K,f,T0)] : t \in Turbulent(K, f, T0)}
FluxSum(sw, x) == (((((sw (+) x.LWin) (+) x.LWout) (+) x.H) (+) x.LE) (+) x.B) (+) x.QRR
Residuals(K, f, T0) == {FluxSum(f.SW, x) : x \in Fluxes(K, f, T0)}

\* --- acceptable surface temperatures (C11) -----------------------------------
TsTol  == R("0.05")     \* five times the solver's step tolerance
EnTol  == R("0.05")     \* W m-2
\* a root lies within TsTol of Ts (a sign change, or a balance at Ts itself)
Balanced(K, f, Ts) ==
    \/ \E r \in Residuals(K, f, Ts) : RAbs(r) \preceq EnTol
    \/ /\ \E r \in Residuals(K, f, Ts (-) TsTol) : RNeg(EnTol) \preceq r
       /\ \E r \in Residuals(K, f, Ts (+) TsTol) : r \preceq EnTol
Capped(K, f, Ts) == Ts = K.zero_temperature /\ \E r \in Residuals(K, f, Ts) : RNeg(EnTol) \preceq r
\* no balance anywhere in the range of surface temperatures the model admits
TooCold(K, f) == \E r \in Residuals(K, f, RI(220)) : r \preceq EnTol
TsOK(K, f, Ts) == /\ RI(220) \preceq Ts /\ Ts \preceq K.zero_temperature
                  /\ Capped(K, f, Ts) \/ Balanced(K, f, Ts) \/ (Ts = RI(220) /\ TooCold(K, f))
CloseFlux(a, b) == /\ \A n \in {"LWin", "LWout", "H", "LE", "B", "QRR"} : RClose(a[n], b[n], R("1e-7"), R("1e-7"))
FluxesOK(K, f, Ts, x) == \E y \in Fluxes(K, f, Ts) : CloseFlux(x, y)

\* the model's own solver, used when the specification generates behaviours
RECURSIVE Bisect(_, _, _, _, _)
Bisect(K, f, lo, hi, n) ==
    IF n = 0 THEN (lo (+) hi) (/) Two
    ELSE LET m == (lo (+) hi) (/) Two
             r == CHOOSE r \in Residuals(K, f, m) : TRUE
         IN IF Zero \prec r THEN Bisect(K, f, m, hi, n-1) ELSE Bisect(K, f, lo, m, n-1)
Solve(K, f) ==
    LET r == CHOOSE r \in Residuals(K, f, K.zero_temperature) : TRUE
    IN IF Zero \preceq r THEN K.zero_temperature ELSE Bisect(K, f, RI(220), K.zero_temperature, 18)

\* --- vapour phase (C15) -------------------------------------------------------
Vapour(K, Ts, LE, dt) ==
    LET cold == Ts \prec K.zero_temperature
        q    == (LE (/) (K.water_density (.) (IF cold THEN K.lat_heat_sublimation ELSE K.lat_heat_vaporize))) (.) dt
    IN [SUBLIMATION  |-> IF cold THEN RMin(q, Zero) ELSE Zero, DEPOSITION   |-> IF cold THEN RMax(q, Zero) ELSE Zero,
        EVAPORATION  |-> IF cold THEN Zero ELSE RMin(q, Zero), CONDENSATION |-> IF cold THEN Zero ELSE RMax(q, Zero)]
=============================================================================
