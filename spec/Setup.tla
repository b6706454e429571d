-------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* Generating the sample configuration: the samples are put into the target  *)
(* directory one after the other; a file that is already there is replaced   *)
(* only after a yes (or with the overwrite option).                          *)
(*                                                                          *)
(* A content is "absent", "user" (the user's own), or "sample".              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Names == <<"config.toml", "constants.toml", "slurm_config.toml", "utilities_config.toml">>
YesWords == {"y", "yes"}
NoWords  == {"n", "no", ""}
\* what an answer means, whatever its case and surrounding blanks
Written == [yes |-> <<"y", "yes", "Y", " YES ", "Yes", "y  ">>, no |-> <<"n", "", "no", "N", "  ", "NO ", "No">>,
            other |-> <<"maybe", "yy", "ye s", "1", "nope", "yes!", "true">>]
Meanings == DOMAIN Written
Spell(m, n) == Written[m][1 + (n % Len(Written[m]))]
Meaning(w) == CHOOSE m \in Meanings : \E i \in 1..Len(Written[m]) : Written[m][i] = w
(***************************************************************************)
(* One file: [content, used: answers used, stop: the answers ended].         *)
(***************************************************************************)
RECURSIVE Ask(_, _, _)
Ask(content, answers, used) ==
    IF used = Len(answers) THEN [content |-> content, used |-> used, stop |-> TRUE]
    ELSE CASE Meaning(answers[used+1]) = "yes" -> [content |-> "sample", used |-> used + 1, stop |-> FALSE]
           [] Meaning(answers[used+1]) = "no"  -> [content |-> content, used |-> used + 1, stop |-> FALSE]
           [] OTHER -> Ask(content, answers, used + 1)
One(content, overwrite, answers, used) ==
    IF content = "absent" \/ overwrite THEN [content |-> "sample", used |-> used, stop |-> FALSE]
    ELSE Ask(content, answers, used)
\* the files in the given order; a missing sample ends the run with an error
RECURSIVE Go(_, _, _, _, _, _)
Go(order, missing, target, overwrite, answers, used) ==
    IF order = <<>> THEN [target |-> target, used |-> used, end |-> "done"]
    ELSE IF Head(order) \in missing THEN [target |-> target, used |-> used, end |-> "missing"]
    ELSE LET r == One(target[Head(order)], overwrite, answers, used)
         IN IF r.stop THEN [target |-> target, used |-> r.used, end |-> "unanswered"]
            ELSE Go(Tail(order), missing, [target EXCEPT ![Head(order)] = r.content], overwrite, answers, r.used)
Outcome(order, missing, target, overwrite, answers) == Go(order, missing, target, overwrite, answers, 0)
Orders == {o \in [1..4 -> 1..4] : Cardinality({o[i] : i \in 1..4}) = 4}
Named(o) == [i \in 1..4 |-> Names[o[i]]]
=============================================================================
