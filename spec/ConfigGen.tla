------------------------------ MODULE ConfigGen ------------------------------
(***************************************************************************)
(* Random histories (TLC -simulate): two versions of each file with values    *)
(* drawn for every option and the tables in any order, the way each file is   *)
(* named at the start (an option in any spelling, the working directory, the  *)
(* configured directory), and later loads.                                    *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils
G == JsonDeserialize(IOEnv.GENFILE)     \* loads
VARIABLES docs, start, hist, phase
vars == <<docs, start, hist, phase>>
Texts == {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "lat", "south_north", "MO", "Oerlemans98", "4GB"}
Floats == {"0.0", "2.5", "-0.006", "5.67e-08", "334000.0", "1e+22", "0.1", "273.16"}
Ints == {0, 1, 2, 20, -3, 8786, 10000000}
Draw(o, t) ==
    CASE t = "b" -> [t |-> "b", v |-> RandomElement({"True", "False"})]
      [] t = "i" /\ o = "workers" -> LET x == RandomElement({0, 0, 1, 16}) IN [t |-> "i", v |-> ToString(x), n |-> x]
      [] t = "i" /\ o = "memory_per_process" -> LET x == RandomElement({0, 2, 3}) IN [t |-> "i", v |-> ToString(x), n |-> x]
      [] t = "i" /\ o = "cores" -> LET x == RandomElement({1, 4, 20}) IN [t |-> "i", v |-> ToString(x), n |-> x]
      [] t = "i" -> LET x == RandomElement(Ints) IN [t |-> "i", v |-> ToString(x), n |-> x]
      [] t = "f" -> [t |-> "f", v |-> RandomElement(Floats)]
      [] t = "l" -> [t |-> "l", v |-> RandomElement({"l0", "l1", "l2"})]
      [] OTHER -> [t |-> "s", v |-> RandomElement(Texts)]
Table(tb) == [o \in DOMAIN tb |-> Draw(o, tb[o])] @@ <<>>
Doc(opts) == [tb \in DOMAIN opts |-> Table(opts[tb])] @@ <<>>
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Perm(S \ {x})
File(opts) == [doc |-> Doc(opts), order |-> Perm(DOMAIN opts)]
Ways == {"short", "long", "equals", "absolute", "default"}
GInit == docs = <<>> /\ start = <<>> /\ hist = <<>> /\ phase = "docs"
DrawDocs == /\ phase = "docs"
            /\ docs' = [config |-> <<File(ConfigOptions), File(ConfigOptions)>>, constants |-> <<File(ConstantsOptions), File(ConstantsOptions)>>,
                        slurm |-> <<File(SlurmOptions), File(SlurmOptions)>>,
                        utilities |-> [aws2cosipy |-> Doc(aws2cosipy_Options), create_static |-> Doc(create_static_Options), wrf2cosipy |-> Doc(wrf2cosipy_Options)]]
            /\ \E a \in {RandomElement(Ways)}, b \in {RandomElement(Ways)}, c \in {RandomElement(Ways)}, e \in {RandomElement(BOOLEAN)}, u \in {RandomElement(BOOLEAN)} :
                  start' = [config |-> a, constants |-> b, slurm |-> c, env |-> e, unknown |-> u]
            /\ phase' = "loads" /\ UNCHANGED hist
Load == /\ phase = "loads" /\ Len(hist) < G.loads
        /\ \E f \in {RandomElement({"config", "constants", "slurm"})}, i \in {RandomElement(1..2)} : hist' = Append(hist, [f |-> f, i |-> i])
        /\ UNCHANGED <<docs, start, phase>>
Done == /\ phase = "loads" /\ Len(hist) = G.loads
        /\ PrintT("CFG " \o ToJson([docs |-> docs, start |-> start, hist |-> hist])) /\ phase' = "done" /\ UNCHANGED <<docs, start, hist>>
GSpec == GInit /\ [][DrawDocs \/ Load \/ Done]_vars
\* no option stands in two tables, so that "the value of an option" is well defined
OneTable(opts) == \A a, b \in DOMAIN opts : a # b => DOMAIN opts[a] \cap DOMAIN opts[b] = {}
ASSUME OneTable(ConfigOptions) /\ OneTable(ConstantsOptions) /\ OneTable(SlurmOptions)
=============================================================================
