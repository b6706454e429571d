-------------------------------- MODULE Station --------------------------------
(***************************************************************************)
(* Conversion of a station record to model input (aws2cosipy).               *)
(* A record is a sequence of rows [t |-> minutes, v |-> [T2 |-> ..., ...]];    *)
(* a value is a number or <<>> (missing).  cols are the columns there are.     *)
(***************************************************************************)
EXTENDS R64, Integers, Sequences, FiniteSets
States == {"T2", "RH2", "U2", "G", "PRES", "LWin", "N"}
Sums   == {"RRR", "SNOWFALL"}
Names  == States \cup Sums
Rows(n) == 1..n
\* gaps are bridged by the last value before them
RECURSIVE LastSeen(_, _, _)
LastSeen(rows, i, v) == IF i = 0 THEN None ELSE IF rows[i].v[v] # None THEN rows[i].v[v] ELSE LastSeen(rows, i-1, v)
Bridged(rows, v) == [i \in 1..Len(rows) |-> LastSeen(rows, i, v)]
AsIs(rows, v)    == [i \in 1..Len(rows) |-> rows[i].v[v]]
Defined(s) == SelectSeq(s, LAMBDA x : x # None)
Mean(s) == LET d == Defined(s) IN IF d = <<>> THEN None ELSE RSum(d) (/) RI(Len(d))
Sum(s)  == LET d == Defined(s) IN IF d = <<>> THEN None ELSE RSum(d)
\* the intervals of the given length from the first to the last record
Starts(rows, step) ==
    LET f == rows[1].t \div step  l == rows[Len(rows)].t \div step
    IN [i \in 1..(l-f+1) |-> (f + i - 1) * step]
Within(rows, step, start, s) == [i \in 1..Cardinality({j \in 1..Len(rows) : rows[j].t >= start /\ rows[j].t < start + step}) |->
    s[CHOOSE j \in 1..Len(rows) : rows[j].t >= start /\ rows[j].t < start + step
                                  /\ Cardinality({h \in 1..Len(rows) : rows[h].t >= start /\ h < j}) = i - 1]]
Collect(v, s) == IF v \in Sums THEN Sum(s) ELSE Mean(s)
\* a period is none or first and last day, both included
InDays(t, period) == period = <<>> \/ (t \div 1440 >= period[1] /\ t \div 1440 <= period[2])
\* --- the two ways to a series: times and for each column the values
Point(rows, cols, period) ==
    LET st == Starts(rows, 60)
        all == [v \in cols |-> LET b == Bridged(rows, v) IN [i \in 1..Len(st) |-> Collect(v, Within(rows, 60, st[i], b))]]
        sel == SelectSeq([i \in 1..Len(st) |-> i], LAMBDA i : InDays(st[i], period))
        some == {v \in cols : \E i \in 1..Len(st) : all[v][i] # None}
    IN [times |-> [i \in 1..Len(sel) |-> st[sel[i]]], cols |-> some, of |-> [v \in some |-> [i \in 1..Len(sel) |-> all[v][sel[i]]]]]
Grid(rows, cols, period, step) ==
    LET rs == SelectSeq(rows, LAMBDA r : InDays(r.t, period))
    IN IF rs = <<>> THEN [times |-> <<>>, cols |-> cols, of |-> <<>>]
       ELSE IF step = 0 THEN [times |-> [i \in 1..Len(rs) |-> rs[i].t], cols |-> cols, of |-> [v \in cols |-> AsIs(rs, v)]]
       ELSE LET st == Starts(rs, step)
            IN [times |-> st, cols |-> cols,
                of |-> [v \in cols |-> LET b == AsIs(rs, v) IN [i \in 1..Len(st) |-> Collect(v, Within(rs, step, st[i], b))]]]
\* --- to another height
Kelvin(x, inK) == IF inK THEN x ELSE x (+) R("273.16")
Moved(x, lapse, dz) == x (+) (lapse (.) dz)
Barometric(z) == RPow(One (-) ((R("0.0065") (.) z) (/) R("288.15")), R("5.255"))
Value(c, v, x, z) ==
    LET dz == z (-) c.alt IN
    CASE v = "T2" -> Moved(Kelvin(x, c.inK), c.lapse.T2, dz)
      [] v = "RH2" -> Moved(x, c.lapse.RH2, dz)          \* limited afterwards
      [] v \in Sums -> RMax(Zero, Moved(x, c.lapse[v], dz))
      [] v = "PRES" -> (x (/) Barometric(c.alt)) (.) Barometric(z)
      [] OTHER -> x
\* what must be written for humidity: within its limits, below them nearly nothing
Humidity(seen, x) == IF R("100") \prec x THEN seen = R("100") ELSE IF x \prec Zero THEN Zero \preceq seen /\ seen \preceq R("0.1") ELSE RClose(seen, x, R("1e-9"), R("1e-9"))
Plausible(x) == R("173.16") \preceq x /\ x \preceq R("373.16")
=============================================================================
