------------------------------ MODULE RunModel ------------------------------
(***************************************************************************)
(* The state machine of a run of one cell: the operations of ColumnModel in *)
(* the order of a time step, driven by weather.  pc is the operation to be  *)
(* done next, sk what the step has produced so far, out the report of the   *)
(* last complete step.  MCRun enumerates all weather words of a length over *)
(* a palette; RunGen draws random weather.                                  *)
(***************************************************************************)
EXTENDS ColumnModel, Run

VARIABLES pc, cf, wx, Ts, sk, out, word
rvars == <<k, col, mem, snowalb, op, pc, cf, wx, Ts, sk, out, word>>
Empty == [none |-> TRUE]
\* the record r with field n set to v
With(r, n, v) == [x \in (DOMAIN r \cup {n}) |-> IF x = n THEN v ELSE r[x]]
Rest == UNCHANGED <<cf, wx, Ts, out, word>>

\* the run begins: a configuration and the first weather are known
Begin(c, f, sh) ==
    /\ pc = "begin" /\ cf' = With(c, "sh", sh) /\ wx' = f /\ word' = <<f>>
    /\ InitOp([T2 |-> f.T2, SNOWHEIGHT |-> sh])
    /\ pc' = "precip" /\ UNCHANGED <<Ts, sk, out>>
\* the next time step
Tick(f) == /\ pc = "weather" /\ wx' = f /\ word' = Append(word, f) /\ pc' = "precip"
           /\ UNCHANGED <<k, col, mem, snowalb, op, cf, Ts, sk, out>>

DoPrecip ==
    /\ pc = "precip"
    /\ LET p == One_(Precip(K, wx, cf.forceTP)) IN
         /\ sk' = [RAIN |-> p.rain, SNOWFALL |-> p.snow (.) (p.rho (/) K.water_density), depth |-> p.snow]
         /\ IF Zero \prec p.snow THEN AddFreshSnow(p.snow, p.rho, RMin(wx.T2, K.zero_temperature), Zero, K.dt) ELSE AgeBy(K.dt)
    /\ pc' = "remesh" /\ Rest
DoRemesh == /\ pc = "remesh" /\ Remesh /\ pc' = "albedo" /\ UNCHANGED sk /\ Rest
DoAlbedo == /\ pc = "albedo" /\ AlbedoOp(Ts) /\ sk' = With(sk, "ALBEDO", op'.out.alb) /\ pc' = "roughness" /\ Rest
DoRough  == /\ pc = "roughness" /\ RoughOp /\ sk' = With(sk, "Z0", op'.out.z0) /\ pc' = "sun" /\ Rest
DoSun ==
    /\ pc = "sun"
    /\ LET sw == SwNet(wx, sk.ALBEDO) IN
       IF Zero \prec sw
       THEN PenetrateOp(sw, K.dt) /\ sk' = With(With(sk, "subM", op'.out.melt), "SW", sw (-) op'.out.pen)
       ELSE sk' = With(With(sk, "subM", Zero), "SW", sw) /\ UNCHANGED <<k, col, mem, snowalb, op>>
    /\ pc' = "surface" /\ Rest
DoSurface ==
    /\ pc = "surface"
    /\ SurfaceOp([dt |-> K.dt, z |-> K.z, z0 |-> sk.Z0, T2 |-> wx.T2, RH2 |-> wx.RH2, PRES |-> wx.PRES, SW |-> sk.SW,
                  U2 |-> wx.U2, RAIN |-> sk.RAIN, SLOPE |-> cf.SLOPE, LWin |-> UsedLW(cf, wx), N |-> wx.N,
                  B1 |-> Zero, B2 |-> Zero, lam |-> Zero])
    /\ LET x == op'.out  v == Vapour(K, x.Ts, x.LE, K.dt)
           s == [n \in DOMAIN sk \cup DOMAIN v \cup {"TS", "LWin", "LWout", "H", "LE", "B", "QRR"} |->
                    IF n = "TS" THEN x.Ts ELSE IF n \in DOMAIN v THEN v[n] ELSE IF n \in DOMAIN sk THEN sk[n] ELSE x[n]]
           me == MeltEnergy(sk.SW, s)
       IN sk' = With(With(s, "ME", me), "surfM", MeltOf(K, me))
    /\ pc' = "melt" /\ Ts' = op'.out.Ts /\ UNCHANGED <<cf, wx, out, word>>
DoMelt == /\ pc = "melt" /\ MeltOp(MassLoss(sk)) /\ sk' = With(sk, "lwc", op'.out.o) /\ pc' = "percolate" /\ Rest
DoPercolate == /\ pc = "percolate" /\ PercolateOp(Supply(sk, sk.lwc)) /\ sk' = With(sk, "Q", op'.out.Q) /\ pc' = "refreeze" /\ Rest
DoRefreeze == /\ pc = "refreeze" /\ RefreezeOp /\ sk' = With(sk, "REFREEZE", op'.out.total) /\ pc' = "conduct" /\ Rest
DoConduct == /\ pc = "conduct" /\ ConductOp(K.dt) /\ pc' = "compact" /\ UNCHANGED sk /\ Rest
DoCompact ==
    /\ pc = "compact" /\ CompactOp(cf.SLOPE, K.dt) /\ pc' = "weather"
    /\ LET a == With(With(sk, "surfMB", SurfMB(sk)), "intMB", IntMB(sk))
       IN out' = With(With(With(With(a, "MB", a.surfMB (+) a.intMB), "LAYERS", RI(Len(col'))), "TOTALHEIGHT", Height(col')), "SNOWHEIGHT", SnowHeight(K, col'))
    /\ sk' = Empty /\ UNCHANGED <<cf, wx, Ts, word>>
Steps == DoPrecip \/ DoRemesh \/ DoAlbedo \/ DoRough \/ DoSun \/ DoSurface \/ DoMelt \/ DoPercolate \/ DoRefreeze \/ DoConduct \/ DoCompact

RunStart == /\ k \in 1..Len(AllK) /\ col = <<>> /\ mem = [nh |-> Zero, nt |-> Zero, ot |-> Zero]
            /\ snowalb = AllK[k].albedo_fresh_snow
            /\ op = [op |-> "start", args |-> NoArgs, out |-> NoArgs, pre |-> [c |-> <<>>, m |-> mem]]
            /\ pc = "begin" /\ cf = Empty /\ wx = Empty /\ Ts = RI(270) /\ sk = Empty /\ out = Empty /\ word = <<>>

\* --- properties of complete steps ------------------------------------------------
Complete == pc = "weather"
PSplit  == Complete => BadPrecip(K, cf, wx, out) = {}
PVapour == Complete => BadVapour(K, out) = {}
PBooks  == Complete => BadBooks(K, wx, out, None) = {}
PColumn == Complete => BadColumn(K, out, col) = {}
\* energy is never destroyed at the surface: a surplus only at the melting point
PSurplus == (Complete /\ K.stability_correction = "Ri") => (Zero \prec out.surfM /\ R("25") \prec out.ME => out.TS = K.zero_temperature)
\* snow ages: the memory never runs ahead of the run
PAges == Complete => mem.nt \preceq (RI(Len(word)) (.) K.dt)
=============================================================================
