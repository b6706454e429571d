----------------------------- MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories: after the start and after every later    *)
(* load, the option values the three classes hold (seen), and once the        *)
(* utilities' tables.                                                        *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLES k, n, st
vars == <<k, n, st>>
C == Cases[k]
Fail(name, p) == IF p THEN {} ELSE {name}
D(f, i) == C.docs[f][i].doc
\* options whose value is not the one determined
Wrong(seen, want(_), names) == {o \in names : ~(o \in DOMAIN seen) \/ ~Same(seen[o], want(o))}
Bad(name, ws) == {"C29:" \o name \o " " \o o : o \in ws}
Verdict(s, seen) ==
    (IF s.config = NoDoc THEN {} ELSE Bad("config", Wrong(seen.config, LAMBDA o : ConfigValue(s.config, o), Names(s.config))))
    \cup (IF s.constants = NoDoc THEN {} ELSE Bad("constants", Wrong(seen.constants, LAMBDA o : ConstantsValue(s.constants, s.coupled, o), Names(s.constants))))
    \cup (IF s.slurm = NoDoc THEN {} ELSE Bad("slurm", Wrong(seen.slurm, LAMBDA o : SlurmValue(s.slurm, o), Names(s.slurm))))
Utilities ==
    UNION {UNION {{"C29:utilities " \o o : o \in {o \in DOMAIN C.docs.utilities[u][tb] :
        ~(u \in DOMAIN C.utilities /\ tb \in DOMAIN C.utilities[u] /\ o \in DOMAIN C.utilities[u][tb])
        \/ ~Same(C.utilities[u][tb][o], C.docs.utilities[u][tb][o])}} : tb \in DOMAIN C.docs.utilities[u]} : u \in DOMAIN C.docs.utilities}
After(m) == IF m = 1 THEN Started(D("config", 1), D("constants", 1), D("slurm", 1))
            ELSE LET h == C.hist[m-1] IN
                 CASE h.f = "config" -> LoadConfig(st, D("config", h.i))
                   [] h.f = "constants" -> LoadConstants(st, D("constants", h.i))
                   [] OTHER -> LoadSlurm(st, D("slurm", h.i))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|load|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1 /\ st = Fresh
Next == /\ n <= 1 + Len(C.hist)
        /\ st' = After(n)
        /\ Say(IF C.err # "done" THEN {"C29:error " \o C.err} ELSE Verdict(After(n), C.seen[n]) \cup (IF n = 1 THEN Utilities ELSE {}))
        /\ n' = IF C.err # "done" THEN 99 ELSE n + 1
        /\ k' = k
Spec == Init /\ [][Next]_vars
=============================================================================
