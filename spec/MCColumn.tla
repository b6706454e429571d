------------------------------ MODULE MCColumn ------------------------------
(***************************************************************************)
(* Exhaustive exploration of ColumnModel over palettes of layers, surface   *)
(* memories and arguments: every column of up to SNOWMAX snow and ICEMAX    *)
(* ice layers, every operation of the focus with every argument of its      *)
(* palette, up to DEPTH operations.  Every transition is printed as a       *)
(* one-operation job for replay in the code ("one test per transition").    *)
(***************************************************************************)
EXTENDS ColumnModel, FiniteSets

Focus == IOEnv.FOCUS
Gen   == JsonDeserialize(IOEnv.GENFILE)     \* depth, snow, ice: bounds; emit: print jobs

VARIABLE depth
mvars == <<k, col, mem, snowalb, op, depth>>

Lay(h, T, w, i) == [h |-> R(h), T |-> R(T), w |-> R(w), i |-> R(i), r |-> Zero]
Base == { Lay("0.012", "265.0", "0.0",  "0.1"),        \* fresh, dry
          Lay("0.08",  "273.16", "0.09", "0.35"),      \* wet, melting
          Lay("0.15",  "270.0", "0.02", "0.55"),       \* old, moist, cold
          Lay("0.009", "272.9", "0.05", "0.3") }       \* shallow, wet
Thin  == Lay("0.0006", "268.0", "0.01", "0.3")         \* thinner than the minimum
Lens  == Lay("0.02", "268.0", "0.0", "0.985")          \* ice lens
LastEps == Lay("0.0801", "273.155", "0.09", "0.351")   \* nearly the wet one: candidate for merging
Firn  == Lay("0.3", "271.5", "0.0", "0.85")
Cold  == Lay("0.05", "245.0", "0.03", "0.4")
SnowPal == Base \cup
    CASE Focus \in {"C01", "C02"} -> {Thin, Lens, LastEps}
      [] Focus = "C04" -> {Lens, Firn} [] Focus = "C05" -> {Cold, Lens, Firn}
      [] Focus = "C07" -> {Thin, Lens, Firn} [] Focus = "C08" -> {Lens} [] Focus = "C06" -> {Firn}
      [] OTHER -> {}
IceOf(h, T) == [h |-> R(h), T |-> R(T), w |-> Zero, i |-> IceFraction(K, K.ice_density), r |-> Zero]
IcePal == {IceOf("0.5", "270.0"), IceOf("0.1", "273.16")} \cup (IF Focus = "C01" THEN {IceOf("0.0007", "272.0")} ELSE {})
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Columns == {c \in {s \o i : s \in Seqs(SnowPal, 0, Gen.snow), i \in Seqs(IcePal, Gen.icemin, Gen.ice)} : R("0.05") \prec Height(c)}
M(h, n, o) == [nh |-> R(h), nt |-> R(n), ot |-> R(o)]
Mems == IF Focus \in {"C03", "C09", "C10"}
        THEN {M("0", "0", "0"), M("0.02", "0", "7200"), M("0.02", "90000", "400000"), M("0", "90000", "400000"),
              M("-0.001", "7200", "1900800"), M("0", "1900800", "2000000"), M("-0.01", "1900799", "3000000"), M("0.05", "6000000", "9000000")}
        ELSE {M("0.02", "3600", "90000")}
Starts == IF Focus = "C16" THEN {<<>>} ELSE Columns

MInit == /\ k \in 1..Len(AllK) /\ col \in Starts /\ mem \in Mems
         /\ snowalb \in (IF Focus = "C09" THEN {K.albedo_fresh_snow, R("0.6")} ELSE {K.albedo_fresh_snow}) /\ depth = 0
         /\ op = [op |-> "start", args |-> NoArgs, out |-> NoArgs, pre |-> [c |-> <<>>, m |-> mem]]
\* all the snow in the column, a layer boundary, a little more and less
Boundary(n) == RSum([j \in 1..n |-> Swe(K, col[j])])
MeltArgs == {Zero, R("-0.0005"), R("0.0004"), R("0.003")}
            \cup UNION {{Boundary(n), Boundary(n) (.) R("0.7"), Boundary(n) (+) R("0.0005")} : n \in 1..(Len(col)-1)}
Forc(T2, RH, SW, U, RA, SL, L, N) ==
    [dt |-> K.dt, z |-> K.z, z0 |-> R("0.0017"), T2 |-> R(T2), RH2 |-> R(RH), PRES |-> RI(650), SW |-> R(SW), U2 |-> R(U),
     RAIN |-> R(RA), SLOPE |-> R(SL), LWin |-> L, N |-> N, B1 |-> Zero, B2 |-> Zero, lam |-> Zero]
SurfaceArgs == {Forc(t, rh, sw, u, rs[1], rs[2], IF n = None THEN RI(250) ELSE None, n) :
                  t \in {"255.0", "273.16", "281.0"}, rh \in {"40", "95"}, sw \in {"0", "250"}, u \in {"0", "1.0", "6.0"},
                  rs \in {<<"0", "0">>, <<"2.5", "30">>}, n \in {None, R("0.5")}}
Do(o) ==
    CASE o = "add_fresh_snow" -> \E h \in {K.minimum_snowfall, R("0.0004"), R("0.05")}, rho \in {R("100"), R("250")}, T \in {R("260"), R("273.16")} :
                                     AddFreshSnow(h, rho, T, Zero, K.dt)
      [] o = "age"           -> \E dt \in {RI(600), K.dt} : AgeBy(dt)
      [] o = "update_grid"   -> Remesh
      [] o = "merge_nodes"   -> \E n \in 1..(Len(col)-1) : MergeOp(n)
      [] o = "split_node"    -> \E n \in 1..Len(col) : SplitOp(n)
      [] o = "correct_layer" -> \E n \in 1..Len(col), h \in {R("0.005"), K.first_layer_height, R("0.09"), R("0.4")} : CorrectOp(n, h)
      [] o = "albedo"        -> \E Ts \in {R("255"), K.t_star_cutoff, R("268"), K.zero_temperature} : AlbedoOp(Ts)
      [] o = "roughness"     -> RoughOp
      [] o = "penetrating"   -> \E sw \in {R("5"), R("200"), R("800")}, dt \in {RI(600), RI(3600)} : PenetrateOp(sw, dt)
      [] o = "surface"       -> \E f \in SurfaceArgs : SurfaceOp(f)
      [] o = "remove_melt"   -> \E q \in MeltArgs : MeltOp(q)
      [] o = "percolation"   -> \E q \in {Zero, R("0.0003"), R("0.01"), R("0.3")} : PercolateOp(q)
      [] o = "refreezing"    -> RefreezeOp
      [] o = "heat"          -> \E dt \in {RI(60), RI(1800), RI(7200)} : ConductOp(dt)
      [] o = "densification" -> \E s \in {Zero, RI(30), RI(70)}, dt \in {RI(600), RI(10800)} : CompactOp(s, dt)
      [] o = "init"          -> \E t \in {"250", "265.5", "273.16", "285"}, s \in {None, RNaN, Zero, R("0.04"), R("0.1"), R("0.25"), R("0.5"), R("0.62"), R("3.7")} :
                                     InitOp([T2 |-> R(t), SNOWHEIGHT |-> s])
OpsOf ==
    CASE Focus = "C01" -> {"update_grid", "merge_nodes", "split_node", "correct_layer"}
      [] Focus = "C02" -> {"add_fresh_snow", "remove_melt"}
      [] Focus = "C03" -> {"add_fresh_snow", "age", "remove_melt", "albedo", "update_grid"}
      [] Focus = "C04" -> {"percolation"} [] Focus = "C05" -> {"refreezing", "percolation"} [] Focus = "C06" -> {"heat"}
      [] Focus = "C07" -> {"densification"} [] Focus = "C08" -> {"penetrating"} [] Focus = "C09" -> {"albedo", "age", "add_fresh_snow"}
      [] Focus = "C10" -> {"roughness", "age", "albedo"} [] Focus \in {"C11", "C12"} -> {"surface"} [] Focus = "C16" -> {"init"}
Emit == IF Gen.emit THEN PrintT("JOB " \o ToJson([k |-> k, start |-> [c |-> col, m |-> mem, a |-> snowalb], ops |-> <<[op |-> op'.op, args |-> op'.args]>>])) ELSE TRUE
MNext == depth < Gen.depth /\ depth' = depth + 1 /\ (\E o \in OpsOf : Do(o)) /\ Emit
MSpec == MInit /\ [][MNext]_mvars
Laws == /\ PRemesh /\ PMergeSplit /\ PLog /\ PSnow /\ PMelt /\ PTracker /\ PPercolation /\ PRefreezing /\ PConduction
        /\ PCompaction /\ PShortwave /\ PAlbedo /\ PRoughness /\ PSurface /\ PInit /\ NonNegAges
ValidIfStarted == op.op # "remove_melt" => Valid
============================================================================
