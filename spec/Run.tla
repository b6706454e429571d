-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* One time step of a run: how the operations of a step hang together and   *)
(* what a step reports (C13, C14, C15, C32), and what a recorded step must   *)
(* satisfy.                                                                  *)
(*                                                                          *)
(* f is the forcing of the step: T2, RH2, PRES, G, U2 and, None when absent, *)
(* RRR, SNOWFALL, LWin, N.  cf is the configuration of the run: forceTP,     *)
(* forceN, SLOPE, coupled.                                                   *)
(***************************************************************************)
EXTENDS Step

\* --- the longwave source (C12) -------------------------------------------------
UsedLW(cf, f) == IF cf.forceN \/ f.LWin = None THEN None ELSE f.LWin
SwNet(f, alb) == RMax(f.G, Zero) (.) (One (-) alb)

SumFluxes(sw, o) == (((((sw (+) o.LWin) (+) o.LWout) (+) o.B) (+) o.QRR) (+) o.H) (+) o.LE
MeltEnergy(sw, o) == RMax(Zero, SumFluxes(sw, o))
MeltOf(K, ME) == (ME (.) K.dt) (/) (RI(1000) (.) K.lat_heat_melting)
MassLoss(o)  == (o.surfM (-) o.SUBLIMATION) (-) o.DEPOSITION
Supply(o, lwc) == ((o.surfM (+) o.CONDENSATION) (+) (o.RAIN (/) RI(1000))) (+) lwc

SurfMB(o) == (((o.SNOWFALL (-) o.surfM) (+) o.SUBLIMATION) (+) o.DEPOSITION) (+) o.EVAPORATION
IntMB(o)  == o.REFREEZE (-) o.subM

Eq(a, b)  == RClose(a, b, R("1e-9"), R("1e-12"))
EqW(a, b) == RClose(a, b, R("1e-9"), R("1e-7"))       \* energy fluxes

\* --- C14 on the reported series ------------------------------------------------
BadPrecip(K, cf, f, o) ==
    Clause("C14:split", \E p \in Precip(K, f, cf.forceTP) :
               /\ Eq(o.RAIN, p.rain) /\ Eq(o.SNOWFALL, p.snow (.) (p.rho (/) K.water_density)))
    \cup Clause("C14:negative", Zero \preceq o.RAIN /\ Zero \preceq o.SNOWFALL)
\* --- C15 ------------------------------------------------------------------------
BadVapour(K, o) ==
    LET v == Vapour(K, o.TS, o.LE, K.dt)
        nz == {n \in {"SUBLIMATION", "DEPOSITION", "EVAPORATION", "CONDENSATION"} : o[n] # Zero}
    IN Clause("C15:law", \A n \in DOMAIN v : Eq(v[n], o[n]))
       \cup Clause("C15:exclusive", \A a, b \in nz : a = b)
       \cup Clause("C15:signs", o.SUBLIMATION \preceq Zero /\ Zero \preceq o.DEPOSITION /\ o.EVAPORATION \preceq Zero /\ Zero \preceq o.CONDENSATION)
\* --- C13 (pen: the penetrating flux, None when it was not observed) ----------------
BadBooks(K, f, o, pen) ==
    Clause("C13:total", Eq(o.MB, o.surfMB (+) o.intMB))
    \cup Clause("C13:surface", Eq(o.surfMB, SurfMB(o)))
    \cup Clause("C13:internal", Eq(o.intMB, IntMB(o)))
    \cup Clause("C13:melt", Eq(o.surfM, MeltOf(K, o.ME)))
    \cup Clause("C13:melt-energy", pen = None \/ EqW(o.ME, MeltEnergy(SwNet(f, o.ALBEDO) (-) pen, o)))
    \cup Clause("C13:melt-energy-sign", Zero \preceq o.ME)
\* --- C32: c is the layer profile at the end of the step ------------------------------
ValidLayer(K, l) ==
    /\ Defined(l) /\ Zero \prec l.h
    /\ R("-1e-12") \preceq l.w /\ Zero \prec l.i /\ l.i \preceq R("1.0000001")
    /\ l.T \preceq (K.zero_temperature (+) R("1e-6"))
BadColumn(K, o, c) ==
    Clause("C32:valid", c # <<>> /\ \A n \in 1..Len(c) : ValidLayer(K, c[n]))
    \cup Clause("C32:layers", o.LAYERS = RI(Len(c)))
    \cup Clause("C32:total-height", Eq(o.TOTALHEIGHT, Height(c)))
    \cup Clause("C32:snow-height", Eq(o.SNOWHEIGHT, SnowHeight(K, c)))
\* derived layer quantities (C21: each filled with its own quantity)
BadDerived(K, c, y) ==
    LET P(F(_), s, rel, ab) == Len(s) = Len(c) /\ \A n \in 1..Len(c) : RClose(F(c[n]), s[n], rel, ab) IN
    Clause("C21:density", P(LAMBDA l : Density(K, l), y.RHO, R("1e-9"), Zero))
    \cup Clause("C21:cold-content", P(LAMBDA l : ColdContent(K, l), y.CC, R("1e-9"), R("1e-3")))
    \cup Clause("C21:porosity", P(LAMBDA l : Porosity(l), y.POROSITY, R("1e-9"), R("1e-9")))
    \cup Clause("C21:irreducible", P(LAMBDA l : Irreducible(l), y.IRREDUCIBLE, R("1e-9"), R("1e-9")))
=============================================================================
