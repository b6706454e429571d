-------------------------------- MODULE Legacy --------------------------------
(***************************************************************************)
(* Converting the Python configuration of earlier versions: every known       *)
(* setting of config.py, constants.py, aws2cosipyConfig.py and                *)
(* wrf2cosipyConfig.py keeps its value in the table where the model looks for *)
(* it.  There is no "nothing" in TOML: None becomes 0 (no value).  The name   *)
(* of the output file becomes its prefix (without the period), the selection  *)
(* of output variables moves from cosipy/output to the configuration.         *)
(***************************************************************************)
EXTENDS Config
\* what earlier versions did not have as a setting of the same name
NotLegacy == {"output_prefix", "output_atm", "output_internal", "output_full", "LUT_path"}
Kept(opts) == [tb \in DOMAIN opts |-> DOMAIN opts[tb] \ NotLegacy]
Zero_ == [t |-> "i", v |-> "0", n |-> 0]
Converted(x) == IF x.t = "n" THEN Zero_ ELSE x
Given(doc, o) == \E tb \in DOMAIN doc : o \in DOMAIN doc[tb]
\* the document a converted configuration amounts to, for the settings that were given
Table(tb) == [o \in DOMAIN tb |-> Converted(tb[o])]
Document(doc) == [tb \in DOMAIN doc |-> Table(doc[tb])]
=============================================================================
