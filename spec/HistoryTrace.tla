---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Validation of recorded histories.  Each call carries what it was given,    *)
(* before and after, and its result: a list of items, each a list of rows of  *)
(* numbers; an item is "timed" when its first dimension is the time.          *)
(***************************************************************************)
EXTENDS History, R64, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLES k, n
C == Cases[k]
Calls == C.calls
Fail(name, p) == IF p THEN {} ELSE {name}
Num(a, b) == RClose(a, b, R("1e-12"), R("1e-15"))
Row(a, b) == a = b \/ (Len(a) = Len(b) /\ \A i \in 1..Len(a) : Num(a[i], b[i]))
Near(a, b) == a = b \/ (Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], R("1e-9"), R("1e-12")))
SameItem(x, y) == x.timed = y.timed /\ Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : Row(x.v[i], y.v[i])
EqAll(a, b) == Len(a.res) = Len(b.res) /\ \A i \in 1..Len(a.res) : SameItem(a.res[i], b.res[i])
\* a is shorter: its timed items are the beginnings of b's
EqPrefix(a, b) == Len(a.res) = Len(b.res) /\ \A i \in 1..Len(a.res) :
    LET x == a.res[i] y == b.res[i] IN
    (x.timed /\ y.timed) => Len(x.v) = a.n /\ Len(y.v) = b.n /\ \A j \in 1..a.n : Near(x.v[j], y.v[j])
Ok(a) == a.err = "none"
Earlier(m) == {j \in 1..(m-1) : Ok(Calls[j])}
Verdict(m) ==
    LET b == Calls[m] IN
    IF ~Ok(b) THEN {"C17:error " \o b.err}
    ELSE Fail("C17:forcing-changed", b.before = b.after)
         \cup UNION {Fail(IF Calls[j].n # b.n THEN "C17:later-forcing" ELSE IF Calls[j].p # b.p THEN "C17:process" ELSE "C17:repeated",
                          Agree(Calls[j], b, EqAll, EqPrefix)) : j \in Earlier(m)}
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|call|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1
Next == n <= Len(Calls) /\ Say(Verdict(n)) /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, n>>
=============================================================================
