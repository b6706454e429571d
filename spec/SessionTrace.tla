---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of recorded sessions.  A case is the input, the runs with what *)
(* each of them did (outcome, warning, computed cells, files) and the        *)
(* references: what a cell computes when it is run alone and without a stop, *)
(* from s0 to hi.  The disk evolves as in SessionModel.                      *)
(***************************************************************************)
EXTENDS Sessions, R64, Files, Options, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Ks    == Data.ks
Cases == Data.cases
VARIABLES k, n, disk
C == Cases[k]
K == Ks[C.k]
Inp == C.inp
Run == C.runs[n]
Own(s) == C.owner \o ":" \o s
Fail(name, p) == IF p THEN {} ELSE {name}

\* --- values ----------------------------------------------------------------------
Same(a, b) == RClose(a, b, R("1e-9"), R("1e-12"))
IsNum(x) == Len(x) = 2 /\ x[1] \in Int
SameAt(a, b) == IF a = <<>> \/ b = <<>> THEN a = b
                ELSE IF IsNum(a) THEN IsNum(b) /\ Same(a, b)
                ELSE Len(a) = Len(b) /\ \A m \in 1..Len(a) : Same(a[m], b[m])
\* series (<<>>: undefined throughout)
SameSeries(a, b) == Len(a) = Len(b) /\ \A m \in 1..Len(a) : SameAt(a[m], b[m])
Tail1(s, m) == IF s = <<>> THEN <<>> ELSE SubSeq(s, m, Len(s))
AllNaN(s) == \A m \in 1..Len(s) : IF s[m] = <<>> THEN TRUE ELSE IsNum(s[m]) /\ RIsNaN(s[m])
Norm(s) == IF AllNaN(s) THEN <<>> ELSE s

\* --- what is expected ------------------------------------------------------------
Ref(p) == LET L == Lineage(Inp, Run.cf, disk, p)
              M == SelectSeq(C.refs, LAMBDA r : r.cell = L.cell /\ r.s0 = L.s0 /\ r.hi = L.hi)
          IN IF M = <<>> THEN <<>> ELSE M[1]
\* the part of the uninterrupted run that belongs to this run
RefSteps(p) == SetToSortSeq({t \in Range(Inp.times) : Origin(Run.cf, disk, Inp) <= t /\ t <= Run.cf.end}, LAMBDA a, b : a < b)
Skip(p) == Cardinality({t \in Range(Inp.times) : Origin(Run.cf, disk, Inp) <= t /\ t < From(Run.cf)})
InputSeries(name, p) ==
    LET s == Source(Inp, Run.cf, p) IN
    IF name \in DOMAIN Inp.static THEN Norm(Inp.static[name][s[1]][s[2]])
    ELSE Norm([m \in 1..Len(Steps(Inp, Run.cf)) |->
            LET t == Steps(Inp, Run.cf)[m]  i == CHOOSE i \in 1..Len(Inp.times) : Inp.times[i] = t
                v == Inp.field[name][s[1]][s[2]][i] IN IF v = <<>> THEN RNaN ELSE v])
Places == (1..Len(Rows(Inp, Run.cf))) \X (1..Len(Cols(Inp, Run.cf)))
Ice == Glacier(Inp, Run.cf)
Chosen == Selected(Run) \* result variables without layers
HasResult == Ice # {}
Timed == {v \in DOMAIN Inp.field : v \in DOMAIN InputTable}
Fixed == {v \in DOMAIN Inp.static : v \in DOMAIN StaticTable}

\* --- clauses ----------------------------------------------------------------------
\* C.limit: layers needed at most, and at the end of the run (known from a run without limit), or <<>>
MaxLayers == RTrunc(K.max_layers)
TooMany == C.limit # <<>> /\ (IF Run.conf.full_field THEN C.limit[1] > MaxLayers ELSE C.limit[2] > MaxLayers)
Either  == C.limit # <<>> /\ ~TooMany /\ C.limit[1] > MaxLayers      \* only layers in between exceed the limit
Refuse1 == Ice # {} /\ (BadOption(K) \/ TooMany)
ExpectRefusal == Refused(Inp, Run.cf, disk) \/ Refuse1
RefusalOwner == IF Refuse1 THEN "C22" ELSE IF NoInput(Inp) \/ NoOverlap(Inp, Run.cf) THEN "C20"
                ELSE IF NoState(Inp, Run.cf, disk) THEN "C19"
                ELSE IF Undefined(Inp, Run.cf) THEN "C22" ELSE IF Run.cf.restart THEN "C19" ELSE "C20"
Outcome == IF ExpectRefusal
           THEN Fail(RefusalOwner \o ":refused", Run.status # "ok")
                \cup Fail("C22:nothing-written", Run.written = <<>>) \cup Fail(RefusalOwner \o ":nothing-written", Run.written = <<>>)
           ELSE IF Either THEN {}
           ELSE Fail((IF Inp.bad # <<>> \/ C.limit # <<>> THEN "C22" ELSE IF Run.cf.restart THEN "C19" ELSE C.owner) \o ":accepted " \o Run.status, Run.status = "ok")
                \cup Fail(Own("accepted ") \o Run.status, Run.status = "ok")
                \cup Fail("C20:warning", (NoInput(Inp) \/ Run.status # "ok") \/ Run.warned = Beyond(Inp, Run.cf))
Computed == Fail("C18:once", ~Run.called \/ (Len(Run.calls) = Cardinality(Ice) /\ Range(Run.calls) = Ice))

V == Run.out.vars
Axis(o) == Len(o.lat) = Len(Rows(Inp, Run.cf)) /\ \A y \in 1..Len(o.lat) : Len(o.lat[y]) = Len(Cols(Inp, Run.cf))
           /\ \A x \in 1..Len(o.lat[y]) : o.lat[y][x] = Inp.lat[Rows(Inp, Run.cf)[y]] /\ o.lon[y][x] = Inp.lon[Cols(Inp, Run.cf)[x]]
Where == IF C.wrf THEN "C24" ELSE "C20"
Names == Fixed \cup Timed \cup {"RRR", "N"} \cup (IF HasResult THEN Chosen \cup Layered(Run) ELSE {})
Dim == IF C.wrf THEN <<"south_north", "west_east">> ELSE <<"lat", "lon">>
DimsOf(v) == IF v \in Layered(Run) THEN <<"time">> \o Dim \o <<"layer">> ELSE IF v \in Fixed THEN Dim ELSE <<"time">> \o Dim
FromResult(v) == HasResult /\ v \in (Chosen \cup Layered(Run))
Meta(v) == IF FromResult(v) THEN ResultTable[v] ELSE IF v \in DOMAIN StaticTable THEN StaticTable[v] ELSE InputTable[v]
SameSet(a, b) == Range(a) = Range(b) /\ Len(a) = Len(b)
File ==
    IF Run.out = <<>> THEN {Own("written"), "C21:written"}
    ELSE Fail(IF Run.cf.restart THEN "C19:first-step" ELSE "C20:steps", Run.out.time = Steps(Inp, Run.cf))
         \cup Fail("C20:steps", Run.out.time = Steps(Inp, Run.cf))
         \cup Fail(Where \o ":region", Axis(Run.out)) \cup Fail("C20:region", Axis(Run.out))
         \cup Fail("C21:variables", DOMAIN V = Names)
         \cup UNION {Fail(IF C.wrf THEN "C24:dimensions" ELSE "C21:dimensions", SameSet(V[v].dims, DimsOf(v)))
                     \cup Fail("C21:unit " \o v, V[v].units = Meta(v)[1])
                     \cup Fail("C21:name " \o v, V[v].long = Meta(v)[2]) : v \in DOMAIN V \cap Names}
         \cup UNION {Fail("C21:attribute " \o a, a \in DOMAIN Run.out.attrs /\ Run.out.attrs[a] = AttrValue(K, Run.conf, a)) : a \in AttrNames}
Sound == Run.out # <<>> /\ Run.out.time = Steps(Inp, Run.cf) /\ Axis(Run.out)
InputsKept == ~\E v \in ((Timed \cup Fixed) \cap DOMAIN V) : ~FromResult(v)
                /\ \E p \in Places : ~SameSeries(V[v].v[p[1]][p[2]], InputSeries(v, p))
AbsentUndefined == \A v \in ({"RRR", "N"} \cap DOMAIN V) : v \in Timed \/ \A p \in Places : V[v].v[p[1]][p[2]] = <<>>
Outside == \A v \in ((Chosen \cup Layered(Run)) \cap DOMAIN V) : \A p \in Places \ Ice : V[v].v[p[1]][p[2]] = <<>>
Wrong == IF C.limit # <<>> THEN {} ELSE {v \in ((Chosen \cup Layered(Run)) \cap DOMAIN V) : \E p \in Ice :
             LET r == Ref(p) IN
             \/ r = <<>> \/ r.out = <<>>
             \/ ~SameSeries(V[v].v[p[1]][p[2]], Norm(Tail1(r.out[v], 1 + Skip(p))))}
ValueOwner == IF C.wrf THEN "C24" ELSE IF Run.cf.restart THEN "C19" ELSE "C18"
Values == IF ~Sound THEN {}
          ELSE Fail("C20:forcing", InputsKept) \cup Fail("C21:inputs", InputsKept) \cup Fail("C21:absent", AbsentUndefined)
               \cup (IF HasResult THEN Fail("C18:outside", Outside) \cup Fail("C21:undefined-outside", Outside) ELSE {})
               \cup (IF Wrong = {} THEN {} ELSE {ValueOwner \o ":values", Own("values"), "C20:values"})
\* the saved state
S == Run.restart.vars
SavedWrong == IF C.limit # <<>> THEN {} ELSE {v \in DOMAIN S : \E p \in Ice : LET r == Ref(p) IN
                  r = <<>> \/ r.restart = <<>> \/ v \notin DOMAIN r.restart \/ ~SameSeries(S[v].v[p[1]][p[2]], r.restart[v])}
\* C22: the saved state holds every layer
Truncated == "NLAYERS" \in DOMAIN S /\ "LAYER_HEIGHT" \in DOMAIN S
             /\ \E p \in Ice : S["NLAYERS"].v[p[1]][p[2]] = <<>> \/ S["LAYER_HEIGHT"].v[p[1]][p[2]] = <<>>
                             \/ S["NLAYERS"].v[p[1]][p[2]][1] # RI(Len(S["LAYER_HEIGHT"].v[p[1]][p[2]][1]))
SavedMissing == C.limit = <<>> /\ \E p \in Ice : LET r == Ref(p) IN r # <<>> /\ r.restart # <<>> /\ DOMAIN r.restart # DOMAIN S
State == IF Run.restart = <<>> THEN {"C19:saved"}
         ELSE Fail("C19:saved-time", Run.restart.time = <<LastOf(Inp, Run.cf)>>)
              \cup Fail("C22:truncated", ~Axis(Run.restart) \/ ~Truncated)
              \cup (IF ~Axis(Run.restart) THEN {"C19:saved-region"}
                    ELSE Fail("C18:saved-outside", \A v \in DOMAIN S : \A p \in Places \ Ice : S[v].v[p[1]][p[2]] = <<>>)
                         \cup (IF SavedWrong = {} /\ ~SavedMissing THEN {} ELSE {ValueOwner \o ":saved-state", Own("saved-state"), "C19:saved-state"}))
Verdict == Fail("C17:input-file", Run.inputs = <<>>) \cup Outcome \cup (IF ExpectRefusal \/ Run.status # "ok" THEN {} ELSE Computed \cup File \cup Values \cup State)

Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|run|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1 /\ disk = [a \in {} |-> <<>>]
Judge == /\ n <= Len(C.runs) /\ Say(Verdict)
         /\ disk' = (IF ExpectRefusal \/ Run.status # "ok" THEN disk ELSE Put(disk, LastOf(Inp, Run.cf), Saved(Inp, Run.cf, disk)))
         /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Judge]_<<k, n, disk>>
=============================================================================
