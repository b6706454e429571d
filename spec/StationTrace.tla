----------------------------- MODULE StationTrace -----------------------------
(***************************************************************************)
(* Validation of recorded conversions of station records.  A case has the     *)
(* configuration, the rows and what was written (out).                       *)
(***************************************************************************)
EXTENDS Station, Radiation, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLE k
Case == Cases[k]
C == Case.conf
O == Case.out
Fail(name, p) == IF p THEN {} ELSE {"C26:" \o name}
Sun31(name, p) == IF p THEN {} ELSE {"C31:" \o name}
Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ (~RIsNaN(a) /\ ~RIsNaN(b) /\ RClose(a, b, R("1e-9"), R("1e-9")))
Is(seen, x) == IF x = None THEN RIsNaN(seen) ELSE Same(seen, x)
Cols == ({"T2", "RH2", "U2", "G", "PRES"} \ {C.lost}) \cup (IF C.rrr THEN {"RRR"} ELSE {}) \cup (IF C.snow THEN {"SNOWFALL"} ELSE {})
        \cup (IF C.lw THEN {"LWin"} ELSE {}) \cup (IF C.n THEN {"N"} ELSE {})
Needed == {"T2", "RH2", "U2", "G", "PRES"}
S == IF C.model = "point" THEN Point(Case.rows, Cols, C.period) ELSE Grid(Case.rows, Cols, C.period, C.step)
\* the cells that are converted, south to north and west to east
Ys == IF C.model = "point" THEN <<1>> ELSE [i \in 1..(C.ny - C.cut[3] - C.cut[4]) |-> i + C.cut[3]]
Xs == IF C.model = "point" THEN <<1>> ELSE [i \in 1..(C.nx - C.cut[1] - C.cut[2]) |-> i + C.cut[1]]
Level == [HGT |-> C.hgt, SLOPE |-> Zero, ASPECT |-> R("180"), MASK |-> One]
Here == IF C.static THEN [C.cells[C.at[1] + 1][C.at[2] + 1] EXCEPT !.HGT = C.hgt] ELSE Level
Cell(y, x) == IF C.model = "point" THEN Here ELSE C.cells[Ys[y]][Xs[x]]
At == {<<y, x>> : y \in 1..Len(Ys), x \in 1..Len(Xs)}
Glacier(y, x) == Cell(y, x).MASK = One
Judged == IF C.model = "point" THEN At ELSE {p \in At : Glacier(p[1], p[2])}     \* where nothing may be undefined
Verdict ==
    LET s == S
        n == Len(s.times)
        poor == \/ ~(Needed \subseteq s.cols) \/ ("LWin" \notin s.cols /\ "N" \notin s.cols) \/ n = 0
        odd  == ~poor /\ \E i \in 1..n : s.of["T2"][i] # None
                    /\ ~Plausible(IF C.model = "point" THEN Value(C, "T2", s.of["T2"][i], C.hgt) ELSE Kelvin(s.of["T2"][i], C.inK))
        \* the sum of nothing is nothing or zero
        free(v) == C.model = "grid" /\ C.step > 0 /\ v \in Sums
        holes == ~poor /\ Judged # {} /\ \E v \in s.cols : ~free(v) /\ \E i \in 1..n : s.of[v][i] = None
        ground == \E p \in Judged : LET c == Cell(p[1], p[2]) IN \E v \in {"HGT", "SLOPE", "ASPECT", "MASK"} : RIsNaN(c[v])
        maybe == ~poor /\ Judged # {} /\ \E v \in s.cols : free(v) /\ \E i \in 1..n : s.of[v][i] = None
        refused == Case.err # "done"
    IN IF poor \/ odd \/ holes \/ ground THEN Fail("refused " \o (IF poor THEN "data" ELSE IF odd THEN "temperature" ELSE "undefined"), refused)
       ELSE IF refused THEN Fail("accepted " \o Case.err, maybe)
       ELSE IF O.times # s.times THEN Fail("times", FALSE)
       ELSE IF O.ny # Len(Ys) \/ O.nx # Len(Xs) THEN Fail("cells", FALSE)
       ELSE
       LET Pos(i, first, off) == first (+) (R("0.01") (.) (RI(i) (+) off))
           lat(y) == IF C.model = "point" THEN Pos(C.at[1], C.lat0, C.off[1]) ELSE Pos(Ys[y] - 1, C.lat0, Zero)
           lon(x) == IF C.model = "point" THEN Pos(C.at[2], C.lon0, C.off[2]) ELSE Pos(Xs[x] - 1, C.lon0, Zero)
           place(seen, x) == RClose(seen, x, Zero, IF C.model = "point" THEN R("0.0051") ELSE R("1e-6"))
           Var(v, ok(_, _, _)) == IF v \notin DOMAIN O.vars THEN Fail(v \o " written", FALSE)
                                  ELSE Fail(v, \A i \in 1..n, p \in At : ok(O.vars[v][i][p[1]][p[2]], i, p))
           Ground(v, ok(_, _)) == IF v \notin DOMAIN O.vars THEN Fail(v \o " written", FALSE) ELSE Fail(v, \A p \in At : ok(O.vars[v][p[1]][p[2]], Cell(p[1], p[2])))
           z(p) == Cell(p[1], p[2]).HGT
           want(v, i, p) == LET x == s.of[v][i] IN IF x = None \/ RIsNaN(z(p)) THEN None ELSE Value(C, v, x, z(p))
           copied == {"U2", "LWin", "N"} \cap s.cols
       IN Fail("layout", O.wrf = C.wrf)
          \cup Fail("place", \A p \in At : place(O.lat[p[1]][p[2]], lat(p[1])) /\ place(O.lon[p[1]][p[2]], lon(p[2])))
          \cup Ground("HGT", LAMBDA w, c : Same(w, c.HGT)) \cup Ground("SLOPE", LAMBDA w, c : Same(w, c.SLOPE)) \cup Ground("MASK", LAMBDA w, c : Same(w, c.MASK))
          \cup Ground("ASPECT", LAMBDA w, c : IF RIsNaN(c.ASPECT) THEN RIsNaN(w) ELSE Same(w, c.ASPECT (-) R("180")))
          \cup Var("T2", LAMBDA w, i, p : Is(w, want("T2", i, p))) \cup Var("PRES", LAMBDA w, i, p : Is(w, want("PRES", i, p)))
          \cup Var("RH2", LAMBDA w, i, p : LET x == want("RH2", i, p) IN IF x = None THEN RIsNaN(w) ELSE ~RIsNaN(w) /\ Humidity(w, x))
          \cup UNION {Var(v, LAMBDA w, i, p : Is(w, s.of[v][i])) : v \in copied}
          \cup UNION {Var(v, LAMBDA w, i, p : IF s.of[v][i] = None /\ free(v) THEN TRUE ELSE Is(w, want(v, i, p))) : v \in s.cols \cap Sums}
          \cup Fail("extra", \A v \in Names \ s.cols : v \notin DOMAIN O.vars)
          \cup (IF C.model = "point" THEN Var("G", LAMBDA w, i, p : Is(w, s.of["G"][i]))
                ELSE IF C.module = "none" THEN Var("G", LAMBDA w, i, p : IF p \in Judged THEN Is(w, s.of["G"][i]) ELSE RIsNaN(w) \/ Is(w, s.of["G"][i]))
                ELSE IF "G" \notin DOMAIN O.vars THEN Fail("G written", FALSE) ELSE
                     Sun31("written", \A i \in 1..n, p \in Judged :
                        LET t == s.times[i]  c == Cell(p[1], p[2])  x == s.of["G"][i]
                            day == Case.day0 + (t \div 1440)  hour == RI(t % 1440) (/) RI(60)
                            up == Sun(lat(p[1]), lon(p[2]), C.tz, day, hour).up
                            hair == ~Low(up, C.thld) /\ ~High(up, C.thld)
                            w == RMax(Zero, Corrected(lat(p[1]), lon(p[2]), C.tz, day, hour, c.SLOPE, c.ASPECT (-) R("180"), x, C.thld))
                        IN hair \/ RClose(O.vars["G"][i][p[1]][p[2]], w, R("2e-5"), R("1e-4")))
                     \cup Sun31("negative", \A i \in 1..n, p \in Judged : Zero \preceq O.vars["G"][i][p[1]][p[2]]))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|1|convert|" \o ToString(b))
Init == k \in 1..Len(Cases)
Next == k > 0 /\ Say(Verdict) /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
