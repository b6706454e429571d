---------------------------- MODULE ColumnModel ----------------------------
(***************************************************************************)
(* The state machine of one glacier column: the layered column, the surface *)
(* memory and the albedo memory, and one transition per public operation.   *)
(* op is the operation that led here, with its arguments and results, so    *)
(* that every listed property of one operation is a predicate on a step.    *)
(* The surrounding model drives it: MC* explores it exhaustively over       *)
(* palettes, ColumnGen draws long random behaviours for replay.             *)
(***************************************************************************)
EXTENDS Step, Json, IOUtils, TLC

AllK == JsonDeserialize(IOEnv.KFILE)        \* one record per set of constants

VARIABLES k,      \* which set of constants
          col, mem,
          snowalb,\* snow albedo carried by the Bougamont scheme
          op      \* [op, args, out, pre]
vars == <<k, col, mem, snowalb, op>>
K == AllK[k]

One_(S) == CHOOSE x \in S : TRUE
Did(name, args, out) == op' = [op |-> name, args |-> args, out |-> out, pre |-> [c |-> col, m |-> mem]]
Keep == k' = k
NoArgs == [none |-> TRUE]

\* --- domains of the operations ------------------------------------------------
Some == col # <<>>
\* conduction is explicit: bound the number of sub-steps of a single call
CanConduct(dt) == Len(col) >= 3 /\ FewSubSteps(K, col, dt, 250)

\* --- operations ----------------------------------------------------------------
InitOp(a) == /\ col = <<>> /\ col' = Now(InitialColumn(K, a)) /\ mem' = [nh |-> Zero, nt |-> Zero, ot |-> Zero]
             /\ Did("init", a, NoArgs) /\ Keep /\ UNCHANGED snowalb
AddFreshSnow(h, rho, T, w, dt) ==
    /\ col' = AddSnow(K, col, h, rho, T, w)
    /\ mem' = (IF K.minimum_snowfall \preceq h THEN NewSnow(mem, h) ELSE Age(mem, dt))
    /\ Did("add_fresh_snow", [h |-> h, rho |-> rho, T |-> T, w |-> w, dt |-> dt], NoArgs)
    /\ Keep /\ UNCHANGED snowalb
AgeBy(dt) == /\ mem' = Age(mem, dt) /\ Did("age", [dt |-> dt], NoArgs) /\ Keep /\ UNCHANGED <<col, snowalb>>
Remesh == /\ Len(col) >= 2 /\ col' = Update1(K, col) /\ Did("update_grid", NoArgs, NoArgs) /\ Keep /\ UNCHANGED <<mem, snowalb>>
MergeOp(n) == /\ n < Len(col) /\ col' = MergeAt(col, n) /\ Did("merge_nodes", [n |-> n], NoArgs) /\ Keep /\ UNCHANGED <<mem, snowalb>>
SplitOp(n) == /\ n <= Len(col) /\ col' = SplitAt(col, n) /\ Did("split_node", [n |-> n], NoArgs) /\ Keep /\ UNCHANGED <<mem, snowalb>>
CorrectOp(n, h) == /\ n <= Len(col) /\ col' = Correct1(K, col, n, h)
                   /\ Did("correct_layer", [n |-> n, h |-> h], NoArgs) /\ Keep /\ UNCHANGED <<mem, snowalb>>
AlbedoOp(Ts) ==
    /\ Some
    /\ LET x == Albedo(K, col, mem, Ts, snowalb) IN
         /\ mem' = x.mem /\ snowalb' = x.snow
         /\ Did("albedo", [Ts |-> Ts, snow |-> snowalb], [alb |-> x.alb, snow |-> x.snow])
    /\ Keep /\ UNCHANGED col
RoughOp == /\ Some /\ Did("roughness", NoArgs, [z0 |-> Roughness(K, col, mem)]) /\ Keep /\ UNCHANGED <<col, mem, snowalb>>
PenetrateOp(sw, dt) ==
    /\ Len(col) >= 2 /\ SwInDomain(K, col, sw, dt)
    /\ LET x == SwAbsorb(K, col, sw, dt) IN
         /\ col' = Now(x.col) /\ Did("penetrating", [sw |-> sw, dt |-> dt], [melt |-> x.melt, pen |-> x.pen])
    /\ Keep /\ UNCHANGED <<mem, snowalb>>
\* f without B1, B2, lam
SurfaceOp(f) ==
    /\ Some
    /\ SubT(K, col, K.zlt1) # {} /\ SubT(K, col, K.zlt2) # {}
    /\ LET g == [f EXCEPT !.B1 = One_(SubT(K, col, K.zlt1)), !.B2 = One_(SubT(K, col, K.zlt2)), !.lam = Conductivity(K, col[1])]
           Ts == Solve(K, g)
           x == One_(Fluxes(K, g, Ts))
       IN /\ col' = <<[col[1] EXCEPT !.T = Ts]>> \o Tail(col)
          /\ Did("surface", f, [Ts |-> Ts, LWin |-> x.LWin, LWout |-> x.LWout, H |-> x.H, LE |-> x.LE, B |-> x.B, QRR |-> x.QRR, MOL |-> x.MOL])
    /\ Keep /\ UNCHANGED <<mem, snowalb>>
MeltOp(q) ==
    /\ Some
    /\ \E x \in Melt(K, col, q, Zero) :
         /\ col' = x.col /\ mem' = [mem EXCEPT !.nh = @ (-) q] /\ Did("remove_melt", [q |-> q], [o |-> x.out])
    /\ Keep /\ UNCHANGED snowalb
PercolateOp(q) ==
    /\ Some
    /\ LET x == Percolate(col, q) IN col' = Now(x.col) /\ Did("percolation", [q |-> q], [Q |-> x.Q])
    /\ Keep /\ UNCHANGED <<mem, snowalb>>
RefreezeOp ==
    /\ Some /\ \A n \in 1..Len(col) : col[n].w \preceq One
    /\ LET x == Refreeze(K, col) IN col' = Now(x.col) /\ Did("refreezing", NoArgs, [total |-> x.total])
    /\ Keep /\ UNCHANGED <<mem, snowalb>>
ConductOp(dt) == /\ CanConduct(dt) /\ col' = Now(Conduct(K, col, dt)) /\ Did("heat", [dt |-> dt], NoArgs) /\ Keep /\ UNCHANGED <<mem, snowalb>>
CompactOp(slope, dt) ==
    /\ Some /\ CompactInDomain(K, col, slope (.) (RPi (/) RI(180)), dt)
    /\ col' = Now(Compact(K, col, slope (.) (RPi (/) RI(180)), dt))
    /\ Did("densification", [slope |-> slope, dt |-> dt], NoArgs) /\ Keep /\ UNCHANGED <<mem, snowalb>>

(***************************************************************************)
(* The listed properties of single operations, as predicates on a step      *)
(* whose result is (col, mem) and whose beginning is op.pre.                 *)
(***************************************************************************)
Was(name) == op.op = name
Pre == op.pre
PRemesh == (Was("update_grid") /\ K.minimum_snow_layer_height \preceq K.first_layer_height) =>
    \/ Conserved(Pre.c, col)
    \/ LET lost == Height(Pre.c) (-) Height(col)
       IN Zero \prec lost /\ lost \preceq ((K.minimum_snow_layer_height (.) RI(NSnow(K, Pre.c))) (+) R("1e-9"))
PMergeSplit == op.op \in {"merge_nodes", "split_node", "correct_layer"} => Conserved(Pre.c, col)
\* the logarithmic arrangement: of the m layers of target height that fit into
\* the snow, all but the last have it, the last and the remainder share the rest
RECURSIVE Geometric(_, _, _, _)
Geometric(c, n, rest, tgt) ==
    LET next == tgt (.) K.layer_stretching
    IN (tgt (+) next) \prec (rest (-) R("1e-9")) =>
           /\ RClose(c[n].h, tgt, R("1e-9"), Zero)
           /\ Geometric(c, n+1, rest (-) tgt, next)
PLog == (Was("update_grid") /\ K.remesh_method = "log_profile" /\ K.minimum_snow_layer_height \preceq K.first_layer_height /\ \A n \in 1..NSnow(K, Pre.c) : IsSnow(K, Pre.c[n]))
         => Geometric(col, 1, SnowHeight(K, Pre.c), K.first_layer_height)
\* nothing moves between snow and glacier where both are thick enough and the
\* snow lies in one piece on the glacier
PSeparate ==
    LET N == NSnow(K, Pre.c) IN
    (/\ Was("update_grid") /\ K.remesh_method = "log_profile" /\ N > 0 /\ K.minimum_snow_layer_height \preceq K.first_layer_height
     /\ \A n \in 1..N : IsSnow(K, Pre.c[n])
     /\ (K.first_layer_height (.) R("1.001")) \prec SnowHeight(K, Pre.c)
     /\ (K.layer_stretching (.) (SnowHeight(K, Pre.c) (+) K.first_layer_height)) \prec (Height(Pre.c) (-) SnowHeight(K, Pre.c)))
    => RClose(SnowHeight(K, col), SnowHeight(K, Pre.c), R("1e-9"), R("1e-9"))
PSnow == Was("add_fresh_snow") =>
    /\ Tail(col) = Pre.c
    /\ RClose(col[1].h (.) Density(K, [col[1] EXCEPT !.w = Zero]), op.args.h (.) op.args.rho, R("1e-4"), Zero)
PMelt == Was("remove_melt") =>
    LET M(c) == RSum([n \in 1..Len(c) |-> Swe(K, c[n])])
    IN \/ ~(Zero \prec op.args.q) /\ col = Pre.c
       \/ RClose(M(Pre.c) (-) M(col), RMin(op.args.q, M(Pre.c)), R("1e-9"), R("1e-12"))
PTracker ==
    /\ Was("add_fresh_snow") /\ K.minimum_snowfall \preceq op.args.h => mem = [nh |-> op.args.h, nt |-> Zero, ot |-> Pre.m.nt]
    /\ (Was("add_fresh_snow") /\ op.args.h \prec K.minimum_snowfall) \/ Was("age")
          => mem = [nh |-> Pre.m.nh, nt |-> Pre.m.nt (+) op.args.dt, ot |-> Pre.m.ot (+) op.args.dt]
    /\ Was("albedo") /\ mem # Pre.m => mem.nt = Pre.m.ot /\ Pre.m.nh \preceq Zero
    /\ op.op \notin {"add_fresh_snow", "age", "albedo", "remove_melt", "init", "start"} => mem = Pre.m
All(rec) == \A f \in DOMAIN rec : rec[f]
PPercolation == Was("percolation") => All(PercolationLaw(Pre.c, op.args.q, col, op.out.Q))
PRefreezing  == Was("refreezing") => All(RefreezingLaw(K, Pre.c, col, op.out.total))
PConduction  == Was("heat") => All(ConductionLaw(Pre.c, col))
PCompaction  == Was("densification") => All(CompactionLaw(K, Pre.c, col))
PShortwave   == Was("penetrating") => All(SwLaw(K, Pre.c, op.args.sw, col, op.out.melt, op.out.pen))
PAlbedo      == Was("albedo") => /\ (MinAlb(K) (-) R("1e-12")) \preceq op.out.alb /\ op.out.alb \preceq (MaxAlb(K) (+) R("1e-12"))
                                 /\ (~SnowTop(K, col) => op.out.alb = K.albedo_ice)
PRoughness   == Was("roughness") => /\ op.out.z0 \preceq RMax(K.roughness_firn, K.roughness_ice)
                                    /\ (~SnowTop(K, col) => op.out.z0 = (K.roughness_ice (/) RI(1000)))
PSurface     == Was("surface") =>
    /\ TsOK(K, [op.args EXCEPT !.B1 = One_(SubT(K, Pre.c, K.zlt1)), !.B2 = One_(SubT(K, Pre.c, K.zlt2)), !.lam = Conductivity(K, Pre.c[1])], op.out.Ts)
    /\ op.out.Ts = col[1].T
PInit == Was("init") =>
    LET sh == IF op.args.SNOWHEIGHT = None THEN K.initial_snowheight_constant
              ELSE IF RIsNaN(op.args.SNOWHEIGHT) THEN Zero ELSE RMax(Zero, op.args.SNOWHEIGHT)
    IN /\ RClose(SnowHeight(K, col), sh, R("1e-9"), R("1e-9"))
       /\ RClose(Height(col) (-) SnowHeight(K, col),
                 K.initial_glacier_layer_heights (.) RI(RTrunc(K.initial_glacier_height (/) K.initial_glacier_layer_heights)), R("1e-9"), Zero)
       /\ Water(col) = Zero /\ \A n \in 1..Len(col) : col[n].T \preceq K.zero_temperature
\* physically valid column (C32)
Valid == \A n \in 1..Len(col) :
    /\ Defined(col[n]) /\ Zero \prec col[n].h
    /\ Zero \preceq col[n].w /\ Zero \prec col[n].i /\ col[n].i \preceq R("1.0000001")
    /\ col[n].T \preceq (K.zero_temperature (+) R("1e-6"))
NonNegAges == Zero \preceq mem.nt /\ Zero \preceq mem.ot /\ mem.nt \preceq (mem.ot (+) R("1e-6"))
============================================================================
