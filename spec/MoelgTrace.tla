------------------------------ MODULE MoelgTrace ------------------------------
(***************************************************************************)
(* Validation of radiation written by the real conversion of station records  *)
(* onto a grid: first with the tables of shading and sky view made from the     *)
(* terrain, then, for another record, with the stored tables.                  *)
(***************************************************************************)
EXTENDS Moelg, Json, IOUtils, TLC
St == INSTANCE Station
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
Case == Cases[k]
C == Case.conf
Fail(name, p) == IF p THEN {} ELSE {"C35:" \o name}
\* days since 1 January 2009; 2012 is a leap year
DayOfYear(n) == IF n < 1095 THEN 1 + (n % 365) ELSE IF n < 1461 THEN 1 + (n - 1095) ELSE 1 + ((n - 1461) % 365)
Ground == [lat |-> [y \in 1..C.ny |-> C.lat0 (+) (C.dlat (.) RI(C.ny - y))], lon |-> [x \in 1..C.nx |-> C.lon0 (+) (C.dlon (.) RI(x-1))],
           z |-> [y \in 1..C.ny |-> [x \in 1..C.nx |-> C.cells[C.ny + 1 - y][x].HGT]]]
\* cells by row from the south, as in the files
Ice == {p \in {<<y, x>> : y \in 2..(C.ny-1), x \in 2..(C.nx-1)} : C.cells[p[1]][p[2]].MASK = One}
Setup == [alt |-> C.alt, inK |-> C.inK, lapse |-> [T2 |-> C.lapse, RH2 |-> C.damp, RRR |-> Zero, SNOWFALL |-> Zero]]
Verdict(n) ==
    LET q == Case.runs[n]  o == Case.outs[n]  g == Ground
        name == IF n = 1 THEN "" ELSE " again"
        Cell(p) == C.cells[p[1]][p[2]]
    IN IF o.err # "done" THEN Fail("made" \o name \o " " \o o.err, FALSE)
       ELSE IF o.times # [i \in 1..Len(q.rows) |-> q.rows[i].t] THEN Fail("times" \o name, FALSE)
       ELSE LET view == [p \in Ice |-> View(g, C.ny + 1 - p[1], p[2], Cell(p).SLOPE, Cell(p).ASPECT)] @@ <<>>
                days == [i \in 1..Len(q.rows) |-> DayOfYear(57 + (q.rows[i].t \div 1440))] @@ <<>>
                suns == [i \in 1..Len(q.rows) |-> Sun(C.lat, days[i], (q.rows[i].t % 1440) \div 60, C.step, C.lead)] @@ <<>>
                horizon == [i \in 1..Len(q.rows) |-> [p \in Ice |-> IF Shines(suns[i].up) THEN Horizon(g, C.ny + 1 - p[1], p[2], suns[i].from) ELSE None] @@ <<>>] @@ <<>>
                dim(i) == RClose(suns[i].up, R("0.01"), Zero, R("1e-9"))
                edge(i, p) == horizon[i][p] # None /\ RClose(horizon[i][p], suns[i].height, R("1e-9"), R("1e-9"))
                want(i, p) == LET c == Cell(p)  v == q.rows[i].v  at(name2) == St!Value(Setup, name2, v[name2], c.HGT)
                              IN Radiation(C.lat, days[i], suns[i], [T2 |-> at("T2"), RH2 |-> at("RH2"), PRES |-> at("PRES"), N |-> v.N, z |-> c.HGT], c.SLOPE, c.ASPECT,
                                           horizon[i][p] # None /\ suns[i].height \prec horizon[i][p], view[p])
                judged(i, p) == ~dim(i) /\ ~edge(i, p)
                seen(i, p) == o.G[i][p[1]][p[2]]
            IN Fail("radiation" \o name, \A i \in 1..Len(q.rows), p \in Ice : judged(i, p) => ~RIsNaN(seen(i, p)) /\ RClose(seen(i, p), want(i, p), R("1e-6"), R("1e-6")))
               \cup Fail("stored view" \o name, \A p \in Ice : \E y \in 1..Len(o.lut.lat), x \in 1..Len(o.lut.lon) :      \* in the tables, at its place
                       /\ RClose(o.lut.lat[y], Ground.lat[C.ny + 1 - p[1]], Zero, R("1e-4")) /\ RClose(o.lut.lon[x], Ground.lon[p[2]], Zero, R("1e-4"))
                       /\ RClose(o.lut.SVF[y][x], view[p], R("1e-9"), R("1e-9")))
               \cup Fail("night" \o name, \A i \in 1..Len(q.rows), p \in Ice : suns[i].up \prec Zero => seen(i, p) = Zero)
               \cup Fail("negative" \o name, \A i \in 1..Len(q.rows), p \in Ice : RIsNaN(seen(i, p)) \/ Zero \preceq seen(i, p))
Say(i, b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(i) \o "|radiation|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ (\A i \in 1..Len(Case.runs) : Say(i, Verdict(i))) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
