------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Trace validation of whole runs of one cell.  A case carries the forcing  *)
(* F[t], the calls ev[t] that were observed in step t (with the states      *)
(* before and after), the reported series out[t] and, where recorded, the   *)
(* layer profile lay[t].  A step is accepted when every call is a step of   *)
(* the model, the calls are linked as in the model (each gets what the      *)
(* others produced, nothing else changes the column), and the reported      *)
(* series follow from them.                                                 *)
(* seen is the set of operations that could be observed: an operation that  *)
(* is not in it is judged by the reported series alone.                     *)
(***************************************************************************)
EXTENDS Run, FiniteSets, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Ks    == Data.ks
Cases == Data.cases
VARIABLES k, t,
          last,     \* column and memory after the last observed call (None: not known)
          Ts, snow  \* surface temperature and snow albedo carried from step to step
vars == <<k, t, last, Ts, snow>>
C == Cases[k]
K == Ks[C.k]
Seen(op) == \E n \in 1..Len(C.seen) : C.seen[n] = op
Find(E, op) == SelectSeq(E, LAMBDA e : e.op = op)
At(E, op) == LET RECURSIVE go(_) go(n) == IF n > Len(E) THEN 0 ELSE IF E[n].op = op THEN n ELSE go(n+1) IN go(1)

\* --- which calls a step must make, and with what --------------------------------
Exactly(name, E, op, n) == Clause(name, ~Seen(op) \/ Len(Find(E, op)) = n)
Given(E, op, F(_)) == LET S == Find(E, op) IN S = <<>> \/ \E n \in 1..Len(S) : F(S[n])

BadCalls(f, o, E) ==
    LET cf == C.conf
        P == {p \in Precip(K, f, cf.forceTP) : Eq(o.SNOWFALL, p.snow (.) (p.rho (/) K.water_density))}
        snows == Zero \prec o.SNOWFALL
        sw == SwNet(f, o.ALBEDO)
        pens == Find(E, "penetrating")
        pen == IF ~(Zero \prec sw) THEN Zero ELSE IF pens = <<>> THEN None ELSE pens[1].out.pen
        melts == Find(E, "remove_melt")
        lwc == IF melts = <<>> THEN None ELSE melts[1].out.o
    IN Exactly("C14:enters-column", E, "add_fresh_snow", IF snows THEN 1 ELSE 0)
       \cup Clause("C14:enters-column-as", Given(E, "add_fresh_snow", LAMBDA e :
               /\ e.args.w = Zero /\ Eq(e.args.T, RMin(f.T2, K.zero_temperature))
               /\ (P = {} \/ \E p \in P : Eq(e.args.h, p.snow) /\ RClose(e.args.rho, p.rho, R("1e-9"), Zero))))
       \cup Clause("C03:time-step", Given(E, "add_fresh_snow", LAMBDA e : e.args.dt = K.dt) /\ Given(E, "age", LAMBDA e : e.args.dt = K.dt))
       \cup Exactly("C03:ageing", E, "age", IF snows THEN 0 ELSE 1)
       \cup Clause("C01:remeshed", ~Seen("update_grid") \/ Find(E, "update_grid") # <<>>)
       \cup Exactly("C09:once", E, "albedo", 1)
       \cup Clause("C09:carried-temperature", Given(E, "albedo", LAMBDA e : RClose(e.args.Ts, Ts, R("1e-12"), Zero)))
       \cup Clause("C09:carried-snow-albedo", K.albedo_method # "Bougamont05" \/ snow = None \/ Given(E, "albedo", LAMBDA e : RClose(e.args.snow, snow, R("1e-12"), Zero)))
       \cup Clause("C09:reported", Given(E, "albedo", LAMBDA e : RClose(e.out.alb, o.ALBEDO, R("1e-12"), Zero)))
       \cup Clause("C09:order", At(E, "albedo") = 0 \/ (At(E, "add_fresh_snow") < At(E, "albedo") /\ At(E, "age") < At(E, "albedo")))
       \cup Exactly("C10:once", E, "roughness", 1)
       \cup Clause("C10:reported", Given(E, "roughness", LAMBDA e : RClose(e.out.z0, o.Z0, R("1e-12"), Zero)))
       \cup Clause("C10:order", At(E, "roughness") = 0 \/ (At(E, "add_fresh_snow") < At(E, "roughness") /\ At(E, "age") < At(E, "roughness")))
       \cup Exactly("C08:when-sunlit", E, "penetrating", IF Zero \prec sw THEN 1 ELSE 0)
       \cup Clause("C08:net-shortwave", Given(E, "penetrating", LAMBDA e : EqW(e.args.sw, sw) /\ e.args.dt = K.dt))
       \cup Clause("C08:reported-melt", IF pens # <<>> THEN Eq(pens[1].out.melt, o.subM) ELSE (Zero \prec sw) \/ o.subM = Zero)
       \cup Exactly("C11:once", E, "surface", 1)
       \cup Clause("C11:absorbed-shortwave", pen = None \/ Given(E, "surface", LAMBDA e : EqW(e.args.SW, sw (-) pen)))
       \cup Clause("C11:reported", Given(E, "surface", LAMBDA e : /\ e.out.Ts = o.TS
               /\ \A n \in {"LWin", "LWout", "H", "LE", "B", "QRR"} : EqW(e.out[n], o[n])))
       \cup Clause("C12:inputs", Given(E, "surface", LAMBDA e :
               /\ \A n \in {"T2", "RH2", "PRES", "U2"} : Eq(e.args[n], f[n])
               /\ Eq(e.args.z0, o.Z0) /\ Eq(e.args.RAIN, o.RAIN) /\ Eq(e.args.SLOPE, cf.SLOPE)
               /\ e.args.z = K.z /\ e.args.dt = K.dt))
       \cup Clause("C12:longwave-source", Given(E, "surface", LAMBDA e :
               /\ RClose(e.out.LWin, LwIn(K, [f EXCEPT !.LWin = UsedLW(cf, f)]), R("1e-8"), Zero)))
       \cup Exactly("C02:melted-once", E, "remove_melt", 1)
       \cup Clause("C02:melted-mass", Given(E, "remove_melt", LAMBDA e : Eq(e.args.q, MassLoss(o))))
       \cup Exactly("C04:once", E, "percolation", 1)
       \cup Clause("C04:supply", lwc = None \/ Given(E, "percolation", LAMBDA e : Eq(e.args.q, Supply(o, lwc))))
       \cup Clause("C04:reported", Given(E, "percolation", LAMBDA e : Eq(e.out.Q, o.Q)))
       \cup Exactly("C05:once", E, "refreezing", 1)
       \cup Clause("C05:in-run", Given(E, "refreezing", LAMBDA e : Eq(e.out.total, o.REFREEZE)))
       \cup Exactly("C06:once", E, "heat", 1)
       \cup Clause("C06:time-step", Given(E, "heat", LAMBDA e : e.args.dt = K.dt))
       \cup Exactly("C07:once", E, "densification", 1)
       \cup Clause("C07:arguments", Given(E, "densification", LAMBDA e : e.args.dt = K.dt /\ Eq(e.args.slope, cf.SLOPE)))
       \cup BadBooks(K, f, o, pen)

\* --- C21: each series holds its own quantity --------------------------------------
\* what the calls say each series must hold (as far as they were observed)
Quantities(f, o, E, c) ==
    LET one(op) == LET S == Find(E, op) IN IF Len(S) = 1 THEN S[1].out ELSE None
        su == one("surface") al == one("albedo") ro == one("roughness") pe == one("percolation") re == one("refreezing") sw == Find(E, "penetrating")
        A == IF su = None THEN << >> ELSE [TS |-> su.Ts, LWin |-> su.LWin, LWout |-> su.LWout, H |-> su.H, LE |-> su.LE, B |-> su.B, QRR |-> su.QRR, MOL |-> su.MOL]
        V == IF su = None THEN << >> ELSE Vapour(K, su.Ts, su.LE, K.dt)
        B == (IF al = None THEN << >> ELSE [ALBEDO |-> al.alb]) @@ (IF ro = None THEN << >> ELSE [Z0 |-> ro.z0])
             @@ (IF pe = None THEN << >> ELSE [Q |-> pe.Q]) @@ (IF re = None THEN << >> ELSE [REFREEZE |-> re.total])
        subM == IF sw = <<>> THEN Zero ELSE sw[1].out.melt
        M == IF su = None \/ re = None \/ al = None \/ ~Seen("penetrating") THEN << >>
             ELSE LET pen == IF sw = <<>> THEN Zero ELSE sw[1].out.pen
                      ME == MeltEnergy(SwNet(f, al.alb) (-) pen, A)  surfM == MeltOf(K, ME)
                      P == Precip(K, f, C.conf.forceTP)
                      fallen == IF Cardinality(P) = 1 THEN LET p == CHOOSE p \in P : TRUE IN p.snow (.) (p.rho (/) K.water_density) ELSE o.SNOWFALL
                      X == V @@ [surfM |-> surfM, SNOWFALL |-> fallen, REFREEZE |-> re.total, subM |-> subM]
                  IN [ME |-> ME, surfM |-> surfM, subM |-> subM, SNOWFALL |-> fallen, surfMB |-> SurfMB(X), intMB |-> IntMB(X), MB |-> SurfMB(X) (+) IntMB(X)]
        H1 == IF c = None THEN << >> ELSE [LAYERS |-> RI(Len(c)), TOTALHEIGHT |-> Height(c), SNOWHEIGHT |-> SnowHeight(K, c)]
    IN A @@ V @@ B @@ M @@ H1
Misplaced(f, o, E, c) ==
    LET Q == Quantities(f, o, E, c)  N == DOMAIN Q \cap DOMAIN o
        eq(a, b) == RClose(a, b, R("1e-9"), R("1e-12"))
    IN {v \in N : ~eq(o[v], Q[v]) /\ \E w \in N \ {v} : ~eq(Q[w], Zero) /\ ~RIsNaN(Q[w]) /\ eq(o[v], Q[w])}

\* nothing but the calls changes the column or the memory
RECURSIVE Chain(_, _, _)
Chain(E, n, s) ==
    IF n > Len(E) THEN {}
    ELSE Clause("C32:changed-otherwise", s = None \/ (CloseCol(s.c, E[n].pre.c, Zero) /\ CloseMem(s.m, E[n].pre.m)))
         \cup Chain(E, n+1, E[n].post)
\* the domain of a single call may be left in extreme weather (a layer that melts
\* away completely, water beyond the pore space): such a step is not judged further
InDomain(E) == \A n \in 1..Len(E) :
    /\ (E[n].op = "refreezing" => \A j \in 1..Len(E[n].pre.c) : E[n].pre.c[j].w \preceq One /\ E[n].pre.c[j].i \preceq One)
    /\ (E[n].op = "penetrating" => SwInDomain(K, E[n].pre.c, E[n].args.sw, E[n].args.dt))
    /\ (E[n].op = "densification" => CompactInDomain(K, E[n].pre.c, E[n].args.slope (.) (RPi (/) RI(180)), E[n].args.dt))
BadEvents(E) == UNION {BadOp(K, E[n]) : n \in 1..Len(E)}

StepVerdict ==
    LET E == C.ev[t]  f == C.F[t]  o == C.out[t]  lay == C.lay[t]
        end == IF E = <<>> THEN None ELSE E[Len(E)].post
    IN (LET m == Misplaced(f, o, E, IF lay # None THEN lay.c ELSE None) IN IF m = {} THEN {} ELSE {"C21:own-quantity"})
       \cup BadPrecip(K, C.conf, f, o) \cup BadVapour(K, o) \cup BadEvents(E) \cup BadCalls(f, o, E)
       \cup (IF C.chain THEN Chain(E, 1, last) ELSE {})
       \cup (IF ~InDomain(E) THEN {}
             ELSE IF lay # None THEN BadColumn(K, o, lay.c)
                                     \cup (IF lay.d = None THEN {} ELSE BadDerived(K, lay.c, lay.d))
                                     \cup Clause("C32:profile", end = None \/ ~C.chain \/ CloseCol(end.c, lay.c, Zero))
             ELSE IF end # None /\ C.chain THEN BadColumn(K, o, end.c) ELSE {})

\* --- the start of a run ---------------------------------------------------------
StartVerdict ==
    IF C.start.err # "none" THEN {}
    ELSE IF C.start.op = "init" THEN BadOp(K, C.start)
    ELSE IF C.start.op = "load" THEN
         Clause("C19:restored-column", CloseCol(C.start.args.c, C.start.post.c, R("1e-12")))
         \cup Clause("C19:restored-memory", CloseMem(C.start.args.m, C.start.post.m))
    ELSE {}
\* a run of valid forcing must not fail (mayfail: the reference leaves its domain)
RunVerdict ==
    IF C.err = "none" THEN Clause("C32:steps", Len(C.out) = Len(C.F))
    ELSE IF C.mayfail \/ (\E j \in 1..Len(C.ev) : ~InDomain(C.ev[j])) THEN {}
    ELSE {C.owner \o ":error " \o C.err, "C32:error " \o C.err}

Say(where, b) == IF b = {} THEN TRUE
    ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(where) \o "|step|" \o ToString(b))

Init == k \in 1..Len(Cases) /\ t = 0 /\ last = None /\ Ts = RI(270) /\ snow = None
Start == /\ t = 0 /\ Say(0, StartVerdict \cup RunVerdict)
         /\ t' = 1 /\ last' = (IF C.start.op = "none" \/ C.start.err # "none" THEN None ELSE C.start.post)
         /\ snow' = (IF C.conf.coupled THEN K.albedo_firn ELSE K.albedo_fresh_snow)
         /\ UNCHANGED <<k, Ts>>
Step1 == /\ t > 0 /\ t <= Len(C.out)
         /\ Say(t, StepVerdict)
         /\ LET E == C.ev[t] A == Find(E, "albedo") IN
              /\ last' = (IF E = <<>> THEN None ELSE E[Len(E)].post)
              /\ snow' = (IF A = <<>> THEN None ELSE A[Len(A)].out.snow)
         /\ Ts' = C.out[t].TS /\ t' = t + 1 /\ k' = k
Spec == Init /\ [][Start \/ Step1]_vars
=============================================================================
