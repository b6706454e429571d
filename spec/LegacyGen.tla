------------------------------ MODULE LegacyGen ------------------------------
(***************************************************************************)
(* Random legacy configurations (TLC -simulate): a value (possibly None) for   *)
(* every known setting, some settings left out, the lines in any order.       *)
(***************************************************************************)
EXTENDS Legacy, Json, IOUtils
VARIABLES files, phase
vars == <<files, phase>>
Texts == {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "lat", "Zhadang/Zhadang_ERA5_2009.nc"}
Floats == {"0.0", "2.5", "-0.006", "5.67e-08", "334000.0", "1e+22", "0.1", "273.16", "-0.0"}
Ints == {0, 1, 2, 20, -3, 8786, 10000000}
\* settings the model cannot do without are always given
Needed == {"WRF", "WRF_X_CSPY", "full_field", "workers", "slurm_use", "albedo_method", "stability_correction"}
Draw(t) ==
    CASE t = "b" -> [t |-> "b", v |-> RandomElement({"True", "False"})]
      [] t = "i" -> LET x == RandomElement(Ints) IN [t |-> "i", v |-> ToString(x), n |-> x]
      [] t = "f" -> [t |-> "f", v |-> RandomElement(Floats)]
      [] OTHER -> [t |-> "s", v |-> RandomElement(Texts)]
Value(o, t) == IF o \notin Needed /\ RandomElement(1..12) = 1 THEN [t |-> "n", v |-> "None"] ELSE Draw(t)
Some(tb) == {o \in DOMAIN tb : o \notin NotLegacy /\ (o \in Needed \/ RandomElement(1..15) # 1)} \cup {}
Tab(tb) == [o \in Some(tb) |-> Value(o, tb[o])] @@ <<>>
Doc(opts) == [tb \in DOMAIN opts |-> Tab(opts[tb])] @@ <<>>
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Perm(S \ {x})
\* (an argument, since TLC evaluates a definition without one only once)
OutName(x) == RandomElement({[file |-> "Zhadang_ERA5_20090101-20091231.nc", prefix |-> "Zhadang_ERA5"], [file |-> "Peru_20160601-20170530.nc", prefix |-> "Peru"],
                          [file |-> "out.nc", prefix |-> "out"], [file |-> "A_b_c_d_20090101-20090102.nc", prefix |-> "A_b_c_d"]})
File(opts) == [doc |-> Doc(opts), order |-> Perm(UNION {DOMAIN opts[tb] : tb \in DOMAIN opts} \ NotLegacy)]
GInit == files = <<>> /\ phase = "draw"
Make == /\ phase = "draw"
        /\ files' = [config |-> File(ConfigOptions), constants |-> File(ConstantsOptions), aws2cosipy |-> File(aws2cosipy_Options),
                     wrf2cosipy |-> File(wrf2cosipy_Options), output |-> OutName(phase),
                     vars |-> [output_atm |-> RandomElement({"RAIN,SNOWFALL,LWin", "", "TS", "a, b ,c"}), output_internal |-> RandomElement({"surfMB,MB", ""}),
                               output_full |-> RandomElement({"HEIGHT,RHO", "", "T"})]]
        /\ phase' = "made"
Done == phase = "made" /\ PrintT("LEG " \o ToJson(files)) /\ phase' = "done" /\ UNCHANGED files
GSpec == GInit /\ [][Make \/ Done]_vars
=============================================================================
