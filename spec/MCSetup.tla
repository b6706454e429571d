------------------------------- MODULE MCSetup -------------------------------
(***************************************************************************)
(* The tool as a state machine, explored completely: every set of files that *)
(* is already there, every missing sample, overwrite on and off, every        *)
(* sequence of answers (at most two unrecognised ones), the input ending at   *)
(* any prompt, and every kind of target directory.  Every finished behaviour  *)
(* is printed and replayed in the real tool.                                  *)
(***************************************************************************)
EXTENDS Setup, Json, IOUtils, TLC
G == JsonDeserialize(IOEnv.GENFILE)     \* others: unrecognised answers at most; salt
Kinds == {"here", "dir", "new", "deep", "samples", "samples-relative", "samples-link"}
Own(k) == k \in {"samples", "samples-relative", "samples-link"}
VARIABLES first, kind, missing, overwrite, target, i, answers, others, end
vars == <<first, kind, missing, overwrite, target, i, answers, others, end>>
Init ==
    /\ kind \in Kinds
    /\ first \in [{Names[j] : j \in 1..4} -> {"absent", "user", "sample"}]
    /\ Own(kind) => \A f \in DOMAIN first : first[f] = "sample"
    /\ kind \in {"new", "deep"} => \A f \in DOMAIN first : first[f] = "absent"
    /\ ~Own(kind) => Cardinality({f \in DOMAIN first : first[f] = "sample"}) <= 1
    /\ missing \in {{}} \cup (IF kind \in {"here", "dir"} THEN {{Names[2]}, {Names[4]}} ELSE {})
    /\ overwrite \in BOOLEAN
    /\ target = first /\ i = 1 /\ answers = <<>> /\ others = 0 /\ end = "run"
F == Names[i]
Prompting == target[F] # "absent" /\ ~overwrite
Move(c) == target' = [target EXCEPT ![F] = c] /\ i' = i + 1
Lost == end = "run" /\ i <= 4 /\ F \in missing /\ end' = "missing" /\ UNCHANGED <<first, kind, missing, overwrite, target, i, answers, others>>
Copy == end = "run" /\ i <= 4 /\ F \notin missing /\ ~Prompting /\ Move("sample") /\ UNCHANGED <<first, kind, missing, overwrite, answers, others, end>>
Say(m) == answers' = Append(answers, Spell(m, G.salt + 3 * Len(answers) + i))
Reply ==
    /\ end = "run" /\ i <= 4 /\ F \notin missing /\ Prompting
    /\ \/ Say("yes") /\ Move("sample") /\ UNCHANGED others
       \/ Say("no") /\ Move(target[F]) /\ UNCHANGED others
       \/ others < G.others /\ Say("other") /\ others' = others + 1 /\ UNCHANGED <<target, i>>
    /\ UNCHANGED <<first, kind, missing, overwrite, end>>
Hush == end = "run" /\ i <= 4 /\ F \notin missing /\ Prompting /\ end' = "unanswered" /\ UNCHANGED <<first, kind, missing, overwrite, target, i, answers, others>>
Fini == end = "run" /\ i = 5 /\ end' = "done" /\ UNCHANGED <<first, kind, missing, overwrite, target, i, answers, others>>
Emit == /\ end \notin {"run", "printed"}
        /\ PrintT("SET " \o ToJson([first |-> first, kind |-> kind, missing |-> missing, overwrite |-> overwrite, answers |-> answers]))
         /\ end' = "printed" /\ UNCHANGED <<first, kind, missing, overwrite, target, i, answers, others>>
Next == Lost \/ Copy \/ Reply \/ Hush \/ Fini \/ Emit
Spec == Init /\ [][Next]_vars
\* --- what the tool promises, on its own terms
Yes(n) == Cardinality({j \in 1..n : Meaning(answers[j]) = "yes"})
Consent == ~overwrite => Cardinality({f \in DOMAIN first : first[f] # target[f] /\ first[f] # "absent"}) <= Yes(Len(answers))
Complete == end = "done" => \A f \in DOMAIN first : target[f] # "absent"
OwnSafe == Own(kind) => target = first
Agrees == end \in {"done", "missing", "unanswered"} =>
    Outcome(Names, missing, first, overwrite, answers) = [target |-> target, used |-> Len(answers), end |-> end]
=============================================================================
