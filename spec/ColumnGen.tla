----------------------------- MODULE ColumnGen -----------------------------
(***************************************************************************)
(* Random behaviours of ColumnModel for replay in the code (TLC -simulate). *)
(* FOCUS names the operations to concentrate on; every behaviour starts in  *)
(* a freshly drawn column and is printed as a driver job when it is DEPTH   *)
(* operations long.                                                         *)
(***************************************************************************)
EXTENDS ColumnModel

Focus == IOEnv.FOCUS
GenLen == JsonDeserialize(IOEnv.GENFILE).depth
VARIABLES hist, start, phase
gvars == <<k, col, mem, snowalb, op, hist, start, phase>>

\* --- draws: r is a tuple of random integers in 0..999999 ---------------------
Million == 1000000
Rolls(n) == Now([j \in 1..n |-> RandomElement(0..(Million-1))])
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
\* y = U or one of the special values (one time in three)
Mix(x, y, lo, hi, specials) == IF x % 3 = 0 /\ Len(specials) > 0 THEN Pick(y, specials) ELSE U(y, lo, hi)

Heights  == <<K.minimum_snow_layer_height, K.first_layer_height, K.first_layer_height (.) K.layer_stretching, R("0.0005"), R("0.002"), R("0.1"), R("0.5")>>
Temps    == <<K.zero_temperature, K.zero_temperature, R("273.1"), R("250"), R("230")>>
IceFracs == <<R("0.23"), R("0.2"), R("0.812"), R("0.5"), R("0.05")>>
DrawLayer(r, j, kind, thick) ==
    LET h == IF kind = 3 THEN Mix(r[j], r[j+1], "0.02", "1.0", <<R("0.5"), R("0.1")>>)
             ELSE IF thick THEN Mix(r[j], r[j+1], "0.02", "0.4", <<R("0.1"), R("0.05")>>)
             ELSE IF r[j+1] % 2 = 0 THEN Mix(r[j], r[j+1], "0.001", "0.3", Heights) ELSE U(r[j+1], "0.001", "0.03")
        T == Mix(r[j+2], r[j+3], "240", "273.16", Temps)
        i == IF kind = 3 THEN IceFraction(K, K.ice_density)                     \* glacier ice
             ELSE IF kind = 2 THEN U(r[j+4], "0.985", "0.999")                   \* ice lens
             ELSE IF r[j+4] % 4 = 0 THEN Pick(r[j+5], IceFracs) ELSE U(r[j+5], "0.06", "0.92")
        pore == RMax(Zero, One (-) i)
        w == IF r[j+6] % 2 = 0 THEN Zero
             ELSE IF r[j+6] % 3 = 0 THEN pore (.) (RI(r[j+7]) (/) RI(Million))
             ELSE RMin(U(r[j+7], "0.0", "0.09"), pore)
    IN [h |-> h, T |-> T, w |-> w, i |-> i, r |-> Zero]
\* a snowpack (possibly with an ice lens, possibly none) on glacier ice
DrawColumn(r) ==
    LET nS == Pick(r[1], <<0, 1, 2, 3, 4, 5, 7>>)
        nG == Pick(r[2], <<1, 2, 3, 3, 4, 5>>)
        thick == Focus \in {"heat"} \/ r[3] % 4 = 0
        similar == r[4] % 3 = 0     \* neighbouring layers alike: candidates for merging
        lens == IF r[5] % 5 = 0 /\ nS > 1 THEN 1 + (r[6] % nS) ELSE 0
        raw == Now([n \in 1..(nS + nG) |->
                 DrawLayer(r, 10 + 8 * n, IF n > nS THEN (IF r[7] % 4 = 0 /\ n = nS + 1 THEN 2 ELSE 3) ELSE IF n = lens THEN 2 ELSE 1, thick)])
        twin(n, m) == [raw[m] EXCEPT !.h = raw[n].h, !.T = raw[m].T (+) ((RI(n-m)) (.) U(r[8], "-0.008", "0.0")), !.w = raw[n].w (.) R("0.05")]
    IN IF ~similar THEN raw ELSE Now([n \in 1..Len(raw) |-> IF n > 1 /\ n <= nS /\ r[9 + n] % 4 # 0 THEN twin(n, 1) ELSE raw[n]])
DrawMem(r) ==
    LET old == Mix(r[1], r[2], "0", "4000000", <<Zero, RI(3600), RI(1900800)>>)
        new == old (.) (IF r[3] % 2 = 0 THEN RI(r[4]) (/) RI(Million) ELSE Pick(r[5], <<Zero, One>>))
        h   == IF r[6] % 3 = 0 THEN Zero ELSE Mix(r[7], r[8], "0", "0.2", <<R("-0.001"), K.minimum_snowfall>>)
    IN [nh |-> h, nt |-> new, ot |-> old]

Dts == <<RI(60), RI(600), RI(1800), RI(3600), RI(3600), RI(10800), RI(86400)>>

\* --- one drawn call of an operation -----------------------------------------
TopSwe == Swe(K, col[1])
RECURSIVE SweTo(_)
SweTo(n) == IF n = 0 THEN Zero ELSE SweTo(n-1) (+) Swe(K, col[n])
DrawMelt(r) ==
    LET n == r[1] % (Len(col) + 1)   \* whole layers
        m == RMin(RI(n), RI(Len(col)))
    IN CASE r[2] % 6 = 0 -> SweTo(IF n > Len(col)-1 THEN Len(col)-1 ELSE n)        \* exactly some layers
         [] r[2] % 6 = 1 -> RMax(Zero, SweTo(IF n > Len(col)-1 THEN 1 ELSE n) (-) R("1e-4"))
         [] r[2] % 6 = 2 -> RNeg(U(r[3], "0", "0.001"))
         [] r[2] % 6 = 3 -> Zero
         [] OTHER -> U(r[3], "0", "0.06")
DrawSurface(r) ==
    [dt |-> K.dt, z |-> K.z,
     z0 |-> Pick(r[1], <<R("0.00024"), R("0.0017"), R("0.004"), R("0.001")>>),
     T2 |-> Mix(r[2], r[3], "245", "293", <<R("273.16"), R("283"), R("263.15"), R("290")>>),
     RH2 |-> Mix(r[4], r[5], "5", "100", <<RI(100), RI(10)>>),
     PRES |-> U(r[6], "450", "1000"),
     SW |-> IF r[7] % 3 = 0 THEN Zero ELSE U(r[8], "0", IF r[8] % 4 = 0 THEN "1100" ELSE "600"),
     U2 |-> IF r[9] % 7 = 0 THEN Zero ELSE U(r[10], "0.1", "15"),
     RAIN |-> IF r[11] % 3 # 0 THEN Zero ELSE U(r[12], "0", "10"),
     SLOPE |-> Mix(r[13], r[14], "0", "60", <<Zero, RI(30)>>),
     LWin |-> IF r[15] % 3 = 0 THEN None ELSE U(r[16], "150", "400"),
     N |-> IF r[15] % 3 = 0 \/ r[15] % 5 = 0 THEN Mix(r[17], r[18], "0", "1", <<Zero, One>>) ELSE None,
     B1 |-> Zero, B2 |-> Zero, lam |-> Zero]
SwOf(r) == U(r[1], "1", "900")
SwDt(r) == Pick(r[2], <<RI(600), RI(3600), RI(3600), RI(10800)>>)
Can(name, r) ==
    CASE name = "merge_nodes" -> Len(col) > 1
      [] name = "penetrating" -> Len(col) >= 2 /\ SwInDomain(K, col, SwOf(r), SwDt(r))
      [] name = "surface"     -> SubT(K, col, K.zlt1) # {} /\ SubT(K, col, K.zlt2) # {} /\ \A n \in 1..Len(col) : R("1e-5") \prec col[n].h
      [] name = "heat"        -> CanConduct(Pick(r[1], Dts))
      [] name = "refreezing"  -> \A n \in 1..Len(col) : col[n].w \preceq One
      [] OTHER -> TRUE
Call(name, r) ==
    CASE name = "add_fresh_snow" ->
            AddFreshSnow(Mix(r[1], r[2], "0.0002", "0.3", <<K.minimum_snowfall, K.minimum_snowfall (.) R("0.999999"), R("0.05")>>),
                         Mix(r[3], r[4], "50", "400", <<RI(300), RI(100)>>), U(r[5], "250", "273.16"),
                         IF r[6] % 4 = 0 THEN U(r[7], "0", "0.05") ELSE Zero, Pick(r[8], Dts))
      [] name = "age"              -> AgeBy(Pick(r[1], Dts))
      [] name = "update_grid"      -> Remesh
      [] name = "merge_nodes"      -> Len(col) > 1 /\ MergeOp(1 + (r[1] % (Len(col) - 1)))
      [] name = "split_node"       -> Some /\ SplitOp(1 + (r[1] % Len(col)))
      [] name = "correct_layer"    -> Some /\ CorrectOp(1 + (r[1] % Len(col)), Mix(r[2], r[3], "0.002", "0.4", <<K.first_layer_height, R("0.1")>>))
      [] name = "albedo"           -> AlbedoOp(Mix(r[1], r[2], "245", "273.16", <<K.zero_temperature, K.t_star_cutoff, R("273.15")>>))
      [] name = "roughness"        -> RoughOp
      [] name = "penetrating"      -> PenetrateOp(SwOf(r), SwDt(r))
      [] name = "surface"          -> SurfaceOp(DrawSurface(r))
      [] name = "remove_melt"      -> Some /\ MeltOp(DrawMelt(r))
      [] name = "percolation"      -> PercolateOp(IF r[1] % 4 = 0 THEN Zero ELSE IF r[1] % 4 = 1 THEN U(r[2], "0", "0.2") ELSE U(r[2], "0", "0.02"))
      [] name = "refreezing"       -> RefreezeOp
      [] name = "heat"             -> ConductOp(Pick(r[1], Dts))
      [] name = "densification"    -> CompactOp(Mix(r[1], r[2], "0", "60", <<Zero, RI(45)>>), Pick(r[3], Dts))
      [] OTHER -> FALSE
Names == <<"add_fresh_snow", "age", "update_grid", "merge_nodes", "albedo", "penetrating", "surface", "remove_melt",
           "percolation", "refreezing", "heat", "densification", "roughness">>
\* one model time step, in its order
Cycle == <<"add_fresh_snow", "update_grid", "albedo", "roughness", "penetrating", "surface", "remove_melt", "percolation",
           "refreezing", "heat", "densification">>
FocusOps ==
    CASE Focus = "C01" -> <<"update_grid", "update_grid", "update_grid", "merge_nodes", "split_node", "correct_layer", "add_fresh_snow", "remove_melt">>
      [] Focus = "C02" -> <<"remove_melt", "remove_melt", "add_fresh_snow", "update_grid">>
      [] Focus = "C03" -> <<"add_fresh_snow", "age", "remove_melt", "albedo", "age">>
      [] Focus = "C04" -> <<"percolation", "percolation", "remove_melt", "add_fresh_snow">>
      [] Focus = "C05" -> <<"refreezing", "percolation", "refreezing", "heat">>
      [] Focus = "C06" -> <<"heat", "heat", "add_fresh_snow">>
      [] Focus = "C07" -> <<"densification", "densification", "add_fresh_snow", "percolation">>
      [] Focus = "C08" -> <<"penetrating", "penetrating", "add_fresh_snow", "heat">>
      [] Focus = "C09" -> <<"albedo", "albedo", "age", "add_fresh_snow", "remove_melt">>
      [] Focus = "C10" -> <<"roughness", "age", "add_fresh_snow", "remove_melt">>
      [] Focus \in {"C11", "C12"} -> <<"surface">>
      [] OTHER -> Names
Job == [op |-> op'.op, args |-> op'.args]

GInit == /\ k \in 1..Len(AllK)
         /\ col = <<>> /\ mem = [nh |-> Zero, nt |-> Zero, ot |-> Zero] /\ snowalb = Zero
         /\ op = [op |-> "start", args |-> NoArgs, out |-> NoArgs, pre |-> [c |-> <<>>, m |-> mem]]
         /\ hist = <<>> /\ start = <<>> /\ phase = "draw"
Begin == /\ phase = "draw"
         /\ \E r \in {Rolls(120)} : \E s \in {Rolls(10)} : \E a \in {RandomElement(0..Million)} :
              /\ col' = (IF Focus = "C16" THEN <<>> ELSE DrawColumn(r)) /\ mem' = DrawMem(s)
              /\ snowalb' = K.albedo_firn (+) ((K.albedo_fresh_snow (-) K.albedo_firn) (.) (RI(a) (/) RI(Million)))
              /\ start' = [c |-> col', m |-> mem', a |-> snowalb']
         /\ op' = [op EXCEPT !.op = "start"] /\ hist' = <<>> /\ phase' = "go" /\ Keep
NeedInit == Focus = "C16" /\ hist = <<>>
DoInit == /\ phase = "go" /\ NeedInit
          /\ \E r \in {Rolls(8)} :
               InitOp([T2 |-> Mix(r[1], r[2], "230", "295", <<R("273.16"), R("273.0"), K.temperature_bottom>>),
                       SNOWHEIGHT |-> CASE r[3] % 6 = 0 -> None [] r[3] % 6 = 1 -> RNaN
                                        [] r[3] % 6 = 2 -> Pick(r[4], <<Zero, R("0.001"), R("0.0999"), R("0.1"), R("0.2"), R("0.3"), R("0.5"), R("1.0")>>)
                                        [] r[3] % 6 = 3 -> U(r[5], "0.0", "0.12") [] OTHER -> U(r[5], "0.0", "8.0")])
          /\ hist' = Append(hist, Job) /\ UNCHANGED <<start, phase>>
Do == /\ phase = "go" /\ Len(hist) < GenLen /\ Some
      /\ \E x \in {RandomElement(0..Million)}, y \in {RandomElement(0..Million)} : \E r \in {Rolls(20)} :
           LET name == IF Focus = "cycle" THEN IF Len(hist) % Len(Cycle) = 0 /\ x % 2 = 0 THEN "age" ELSE Cycle[1 + (Len(hist) % Len(Cycle))]
                       ELSE IF x % 4 = 0 THEN Pick(y, Names) ELSE Pick(y, FocusOps)
           IN Call(IF Can(name, r) THEN name ELSE "age", r)
      /\ hist' = Append(hist, Job) /\ UNCHANGED <<start, phase>>
Finish == /\ phase = "go" /\ (Len(hist) = GenLen \/ (~Some /\ ~NeedInit))
          /\ PrintT("JOB " \o ToJson([k |-> k, start |-> start, ops |-> hist]))
          /\ phase' = "done" /\ UNCHANGED <<k, col, mem, snowalb, op, hist, start>>
GNext == Begin \/ DoInit \/ Do \/ Finish
GSpec == GInit /\ [][GNext]_gvars
============================================================================
