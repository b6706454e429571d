---------------------------- MODULE ColumnTrace ----------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the real code must be a step of *)
(* the model.  Cases are independent behaviours (one initial state each);   *)
(* an event carries the recorded states before and after the call.  Failing *)
(* clauses are printed as  BAD|case|event|op|{clauses}.                      *)
(***************************************************************************)
EXTENDS Step, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Ks    == Data.ks
Cases == Data.cases
VARIABLES k, l
vars == <<k, l>>
Events(j) == Cases[j].ev
\* an unexpected exception counts against the property of the operation
Owner(j, o) ==
    CASE o \in {"update_grid", "log_profile", "adaptive_profile", "merge_nodes", "split_node", "correct_layer"} -> "C01"
      [] o \in {"add_fresh_snow", "remove_melt"} -> "C02"
      [] o = "age" -> "C03" [] o = "percolation" -> "C04" [] o = "refreezing" -> "C05" [] o = "heat" -> "C06"
      [] o = "densification" -> "C07" [] o = "penetrating" -> "C08" [] o = "albedo" -> "C09" [] o = "roughness" -> "C10"
      [] o = "surface" -> "C11" [] o = "init" -> "C16" [] OTHER -> Cases[j].owner
\* refreezing may refuse a column with more water or ice than volume (percolation
\* comes first in a time step and drains it)
OutOfDomain(e) == e.op = "refreezing" /\ \E n \in 1..Len(e.pre.c) : One \prec e.pre.c[n].w \/ One \prec e.pre.c[n].i
Verdict(j, n) ==
    LET e == Events(j)[n] IN
    IF e.err # "none" THEN (IF e.mayfail \/ OutOfDomain(e) THEN {} ELSE {Owner(j, e.op) \o ":error " \o e.err})
    ELSE BadOp(Ks[Cases[j].k], e)
Init == k \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Events(k))
        /\ LET b == Verdict(k, l) IN IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(l) \o "|" \o Events(k)[l].op \o "|" \o ToString(b))
        /\ l' = l + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
============================================================================
