----------------------------- MODULE LegacyTrace -----------------------------
(***************************************************************************)
(* Validation of recorded conversions: what the model's own loaders hold      *)
(* after reading the written files (config, constants, utilities), and that    *)
(* the legacy files are as they were.                                        *)
(***************************************************************************)
EXTENDS Legacy, Json, IOUtils
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
Fail(name, p) == IF p THEN {} ELSE {name}
Bad(name, ws) == {"C30:" \o name \o " " \o o : o \in ws}
Wrong(held, want(_), names) == {o \in names : ~(o \in DOMAIN held) \/ ~Same(held[o], want(o))}
Text_(x) == [t |-> "s", v |-> x]
Verdict(c) ==
    IF c.err # "done" THEN {"C30:error " \o c.err}
    ELSE LET cd == Document(c.files.config.doc)  kd == Document(c.files.constants.doc)  on == Coupled(cd)
             W(u) == UNION {Bad(u, Wrong(c.utilities[u][tb], LAMBDA o : Converted(c.files[u].doc[tb][o]), DOMAIN c.files[u].doc[tb]))
                            : tb \in DOMAIN c.files[u].doc}
         IN Bad("config", Wrong(c.config, LAMBDA o : ConfigValue(cd, o), Names(cd)))
            \cup Bad("constants", Wrong(c.constants, LAMBDA o : ConstantsValue(kd, on, o), Names(kd)))
            \cup W("aws2cosipy") \cup W("wrf2cosipy")
            \cup Fail("C30:prefix", Same(c.prefix, Text_(c.files.output.prefix)))
            \cup Bad("output", {o \in DOMAIN c.files.vars : ~Same(c.selected[o], Text_(c.files.vars[o]))})
            \cup Fail("C30:legacy-files", c.untouched)
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|1|convert|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ Say(Verdict(Cases[k])) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
