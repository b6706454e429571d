-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* What the configuration files determine.  A document gives, table by table, *)
(* the value of every option; a value is a record [t |-> type, v |-> text].   *)
(* Loading a document gives every option exactly the value written there,     *)
(* whatever table it stands in and whatever the order of the tables, but for  *)
(* the adjustments below.  Loading again replaces the former values.          *)
(***************************************************************************)
EXTENDS Settings, Integers, Sequences, FiniteSets, TLC
True == [t |-> "b", v |-> "True"]
Text(x) == [t |-> "s", v |-> x]
Absent == [t |-> "n", v |-> "None"]
IsOn(x) == x = True
Names(doc) == UNION {DOMAIN doc[tb] : tb \in DOMAIN doc}
Raw(doc, o) == LET tb == CHOOSE tb \in DOMAIN doc : o \in DOMAIN doc[tb] IN doc[tb][o]
(***************************************************************************)
(* config.toml: WRF input names the horizontal dimensions; coupled mode       *)
(* writes full fields; zero workers stands for "as many as there are".        *)
(***************************************************************************)
ConfigValue(doc, o) ==
    CASE o = "northing" /\ IsOn(Raw(doc, "WRF")) -> Text("south_north")
      [] o = "easting" /\ IsOn(Raw(doc, "WRF")) -> Text("west_east")
      [] o = "full_field" /\ IsOn(Raw(doc, "WRF_X_CSPY")) -> True
      [] o = "workers" /\ Raw(doc, "workers").v = "0" -> Absent
      [] OTHER -> Raw(doc, o)
(***************************************************************************)
(* constants.toml: coupled mode has one albedo and one stability method.      *)
(***************************************************************************)
ConstantsValue(doc, coupled, o) ==
    CASE coupled /\ o = "albedo_method" -> Text("Oerlemans98")
      [] coupled /\ o = "stability_correction" -> Text("MO")
      [] OTHER -> Raw(doc, o)
(***************************************************************************)
(* slurm_config.toml: memory per process, if given, determines the memory.    *)
(***************************************************************************)
SlurmValue(doc, o) ==
    IF o = "memory" /\ Raw(doc, "memory_per_process").n # 0
    THEN Text(ToString(Raw(doc, "memory_per_process").n * Raw(doc, "cores").n) \o "GB")
    ELSE Raw(doc, o)
Has(x, t, v) == x.t = t /\ x.v = v
Same(x, y) == x.t = y.t /\ x.v = y.v
(***************************************************************************)
(* The state of a process: what is loaded in each of the three (<<>>: none).  *)
(***************************************************************************)
NoDoc == <<>>
Fresh == [config |-> NoDoc, constants |-> NoDoc, slurm |-> NoDoc, coupled |-> FALSE]
Coupled(doc) == IsOn([t |-> Raw(doc, "WRF_X_CSPY").t, v |-> Raw(doc, "WRF_X_CSPY").v])
Started(c, k, s) == [config |-> c, constants |-> k, coupled |-> Coupled(c),
                     slurm |-> IF Has(Raw(c, "slurm_use"), "b", "True") THEN s ELSE NoDoc]
LoadConfig(st, d)    == [st EXCEPT !.config = d]
LoadConstants(st, d) == [st EXCEPT !.constants = d, !.coupled = Coupled(st.config)]
LoadSlurm(st, d)     == [st EXCEPT !.slurm = d]
=============================================================================
