----------------------------- MODULE SetupTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs of the set-up tool.  A case has what was there *)
(* (first), the answers offered, how many were asked for, and what is there   *)
(* now: in the target (now) and in the sample directory (samples, by file:    *)
(* TRUE if it is byte for byte as shipped).                                   *)
(***************************************************************************)
EXTENDS Setup, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
Fail(name, p) == IF p THEN {} ELSE {name}
Set(s) == {s[j] : j \in 1..Len(s)}
Own(c) == c.kind \in {"samples", "samples-relative", "samples-link"}
Want(c, o) == Outcome(Named(o), Set(c.missing), c.first, c.overwrite, c.answers)
Ended(c) == CASE c.end = "done" -> "done" [] c.end = "EOFError" -> "unanswered" [] OTHER -> "missing"
Verdict(c) ==
    Fail("C28:samples", \A f \in DOMAIN c.samples : c.samples[f])
    \cup (IF Own(c) THEN {}     \* the samples themselves as target: refused or left alone
          ELSE LET W == {Want(c, o) : o \in Orders} IN
          Fail("C28:files", \E w \in W : w.target = c.now)
          \cup Fail("C28:prompts", \E w \in W : w.target = c.now /\ w.used = c.used)
          \cup Fail("C28:end", \E w \in W : w.target = c.now /\ w.used = c.used /\ w.end = Ended(c))
          \cup Fail("C28:extra", c.extra = <<>>))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|1|setup|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ Say(Verdict(Cases[k])) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
