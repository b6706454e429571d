-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* One call of each public operation of the model, as a relation between    *)
(* the column and surface memory before and after, plus its inputs and      *)
(* results.  Bad(op, ...) is the set of clauses "Cnn:what" that fail; it is  *)
(* empty exactly when the recorded transition is a step of the model.       *)
(***************************************************************************)
EXTENDS Remesh, Snow, Water, Heat, Compaction, Shortwave, Surface, Energy, Profile0

Rel  == R("1e-9")
NRel == R("1e-8")
CloseMem(a, b) == /\ RClose(a.nh, b.nh, NRel, R("1e-12")) /\ RClose(a.nt, b.nt, NRel, R("1e-6")) /\ RClose(a.ot, b.ot, NRel, R("1e-6"))
Clause(name, ok) == IF ok THEN {} ELSE {name}
Explained(S, c) == \E d \in S : CloseCol(d, c, NRel)

\* --- re-meshing ---------------------------------------------------------------
\* d is reachable from c by dropping snow layers no thicker than the minimum:
\* what is missing must be explained by at most the removed layers' totals.
BadRemesh(K, c, d, S) ==
    IF Explained(S, d) THEN {}
    ELSE LET lost == Height(c) (-) Height(d)
             allow == K.minimum_snow_layer_height (.) RI(NSnow(K,c))
         IN {"C01:arrangement"}
            \cup Clause("C01:conservation", RNeg(R("1e-9")) \preceq lost /\ lost \preceq (allow (+) R("1e-9")))
BadMemKept(p, q) == Clause("C03:memory-untouched", CloseMem(p, q))

\* Melt uses up the remembered depth by at least the water equivalent removed
\* and at most the larger of that and the snow depth removed; a mass gain
\* (q < 0) may add to it at most its water equivalent.
MeltUses(h0, h1, q, lost) ==
    IF Zero \prec q THEN /\ h1 \preceq (RMax(Zero, h0 (-) q) (+) R("1e-12"))
                          /\ (h0 (-) RMax(q, lost)) \preceq (h1 (+) R("1e-12"))
    ELSE /\ (h0 (-) R("1e-12")) \preceq h1 /\ h1 \preceq ((h0 (-) q) (+) R("1e-12"))

BadOp(K, e) ==
  LET c == e.pre.c  d == e.post.c  m == e.pre.m  n == e.post.m  a == e.args  o == e.out IN
  CASE e.op = "update_grid"      -> BadRemesh(K, c, d, UpdateGrid(K, c)) \cup BadMemKept(m, n)
    [] e.op = "log_profile"      -> BadRemesh(K, c, d, LogProfile(K, c)) \cup BadMemKept(m, n)
    [] e.op = "adaptive_profile" -> BadRemesh(K, c, d, AdaptiveProfile(K, c)) \cup BadMemKept(m, n)
    [] e.op = "merge_nodes"      -> Clause("C01:merge", CloseCol(MergeAt(c, a.n), d, NRel)) \cup BadMemKept(m, n)
    [] e.op = "split_node"       -> Clause("C01:split", CloseCol(SplitAt(c, a.n), d, NRel)) \cup BadMemKept(m, n)
    [] e.op = "correct_layer"    -> Clause("C01:correct", Explained(Correct(K, c, a.n, a.h), d)) \cup BadMemKept(m, n)
    [] e.op = "add_fresh_snow"   ->
            Clause("C02:snowfall", CloseCol(AddSnow(K, c, a.h, a.rho, a.T, a.w), d, NRel))
            \cup Clause("C03:snowfall", \E x \in Tracked(K, m, a.h, a.dt) : CloseMem(x, n))
    [] e.op = "age"              ->
            Clause("C03:age", CloseMem(Age(m, a.dt), n)) \cup Clause("C03:column-untouched", CloseCol(c, d, Zero))
    [] e.op = "remove_melt"      ->
            LET S == {x \in Melt(K, c, a.q, Zero) : CloseCol(x.col, d, NRel)}
            IN Clause("C02:melt", S # {})
               \cup Clause("C02:water-of-removed-layers", S = {} \/ \E x \in S : RClose(x.out, o.o, NRel, R("1e-12")))
               \cup Clause("C03:melt-uses-up-fresh-snow", MeltUses(m.nh, n.nh, a.q, Height(c) (-) Height(d)))
               \cup Clause("C03:melt-keeps-ages", n.nt = m.nt /\ n.ot = m.ot)
    [] e.op = "percolation"      ->
            LET x == Percolate(c, a.q)  L == PercolationLaw(c, a.q, d, o.Q) IN
            Clause("C04:conserved", L.conserved) \cup Clause("C04:runoff", L.runoff) \cup Clause("C04:drained", L.drained)
            \cup Clause("C04:untouched", L.untouched)
            \cup Clause("C04:bucket", CloseCol(x.col, d, NRel) /\ RClose(x.Q, o.Q, NRel, R("1e-12")))
    [] e.op = "refreezing"       ->
            LET x == Refreeze(K, c)  L == RefreezingLaw(K, c, d, o.total) IN
            Clause("C05:conserved", L.conserved) \cup Clause("C05:reported", L.reported) \cup Clause("C05:limit", L.limit)
            \cup Clause("C05:heights", L.heights)
            \cup Clause("C05:law", CloseCol(x.col, d, NRel) /\ RClose(x.total, o.total, NRel, R("1e-12")))
            \cup Clause("C05:per-layer", Len(d) = Len(x.col) /\ \A j \in 1..Len(d) : RClose(d[j].r, x.col[j].r, NRel, R("1e-12")))
    [] e.op = "heat"             ->
            LET L == ConductionLaw(c, d) IN
            Clause("C06:ends", L.ends) \cup Clause("C06:maximum-principle", L.maximum) \cup Clause("C06:untouched", L.untouched)
            \cup Clause("C06:solution", ~FewSubSteps(K, c, a.dt, 600) \/ CloseCol(Conduct(K, c, a.dt), d, R("1e-7")))
    [] e.op = "densification"    ->
            LET L == CompactionLaw(K, c, d) IN
            IF ~CompactInDomain(K, c, a.slope (.) (RPi (/) RI(180)), a.dt) THEN {}
            ELSE Clause("C07:monotone", L.monotone) \cup Clause("C07:selective", L.selective) \cup Clause("C07:untouched", L.untouched)
            \cup Clause("C07:law", CloseCol(Compact(K, c, a.slope (.) (RPi (/) RI(180)), a.dt), d, NRel))
    [] e.op = "penetrating"      ->
            LET x == SwAbsorb(K, c, a.sw, a.dt)  L == SwLaw(K, c, a.sw, d, o.melt, o.pen) IN
            IF ~SwInDomain(K, c, a.sw, a.dt) THEN {}
            ELSE Clause("C08:share", L.share) \cup Clause("C08:cap", L.cap) \cup Clause("C08:deepest", L.deepest)
                 \cup Clause("C08:ice-fraction", L.fraction) \cup Clause("C08:mass", L.mass) \cup Clause("C08:reported", L.reported)
                 \cup Clause("C08:law", CloseCol(x.col, d, NRel) /\ RClose(x.melt, o.melt, NRel, R("1e-12")))
    [] e.op = "albedo"           ->
            LET x == Albedo(K, c, m, a.Ts, a.snow) IN
            Clause("C09:law", RClose(x.alb, o.alb, NRel, Zero) /\ (K.albedo_method # "Bougamont05" \/ RClose(x.snow, o.snow, NRel, Zero)))
            \cup Clause("C09:bounds", (MinAlb(K) (-) R("1e-12")) \preceq o.alb /\ o.alb \preceq (MaxAlb(K) (+) R("1e-12")))
            \cup Clause("C03:fall-back", CloseMem(x.mem, n)) \cup Clause("C09:column-untouched", CloseCol(c, d, Zero))
    [] e.op = "roughness"        ->
            Clause("C10:law", RClose(Roughness(K, c, m), o.z0, NRel, Zero)) \cup Clause("C10:pure", CloseCol(c, d, Zero) /\ CloseMem(m, n))
    [] e.op = "surface"          ->
            LET Bs(z) == SubT(K, c, z)
                F == {[a EXCEPT !.B1 = b1, !.B2 = b2, !.lam = Conductivity(K, c[1])] : b1 \in Bs(K.zlt1), b2 \in Bs(K.zlt2)}
                x == [LWin |-> o.LWin, LWout |-> o.LWout, H |-> o.H, LE |-> o.LE, B |-> o.B, QRR |-> o.QRR]
            IN IF F = {} THEN {}
               ELSE Clause("C11:surface-temperature", \E f \in F : TsOK(K, f, o.Ts))
                    \cup Clause("C11:top-layer", Len(d) = Len(c) /\ RClose(d[1].T, o.Ts, Rel, Zero)
                                    /\ CloseCol(<<[c[1] EXCEPT !.T = d[1].T]>> \o Tail(c), d, Zero))
                    \cup Clause("C11:fluxes-at-it", \E f \in F : FluxesOK(K, f, o.Ts, x))
                    \cup Clause("C12:LWin",  \E f \in F : \E y \in Fluxes(K, f, o.Ts) : RClose(y.LWin, x.LWin, R("1e-8"), Zero))
                    \cup Clause("C12:LWout", \E f \in F : \E y \in Fluxes(K, f, o.Ts) : RClose(y.LWout, x.LWout, R("1e-8"), Zero))
                    \cup Clause("C12:turbulent", \E f \in F : \E y \in Fluxes(K, f, o.Ts) :
                             RClose(y.H, x.H, R("1e-7"), R("1e-7")) /\ RClose(y.LE, x.LE, R("1e-7"), R("1e-7")))
                    \cup Clause("C12:ground", \E f \in F : \E y \in Fluxes(K, f, o.Ts) : RClose(y.B, x.B, R("1e-7"), R("1e-7")))
                    \cup Clause("C12:rain", \E f \in F : \E y \in Fluxes(K, f, o.Ts) : RClose(y.QRR, x.QRR, R("1e-7"), R("1e-7")))
    [] e.op = "init"             -> Clause("C16:initial-column", CloseCol(InitialColumn(K, a), d, NRel))
                                    \cup Clause("C16:memory", CloseMem(n, [nh |-> Zero, nt |-> Zero, ot |-> Zero]))
    [] OTHER -> {"C00:unknown-operation"}
=============================================================================
