------------------------------ MODULE MCSession ------------------------------
(* Families of small sessions, exhaustively; every finished session is emitted *)
(* for replay in the real program.                                             *)
EXTENDS SessionModel, Json, IOUtils
G == JsonDeserialize(IOEnv.GENFILE)   \* family, ny, nx, nt, runs, dt (minutes)
DT == G.dt
T(n) == DT * (n - 1)
Stored == [n \in 1..G.nt |-> T(n)]
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
Cells == (1..G.ny) \X (1..G.nx)
MaskOf(M) == [y \in 1..G.ny |-> [x \in 1..G.nx |-> IF <<y, x>> \in M THEN 1 ELSE 0]]
In(times, M, bad, present) == [times |-> times, ny |-> G.ny, nx |-> G.nx, mask |-> MaskOf(M), bad |-> bad, present |-> present, dt |-> DT]
Run(s, e, r, tile) == [start |-> s, end |-> e, restart |-> r, tile |-> tile, dt |-> DT]
Tiles == {<<a, b, c, d>> : a \in 0..(G.ny-1), b \in 1..G.ny, c \in 0..(G.nx-1), d \in 1..G.nx}
Bad(c, t, st) == [y |-> c[1], x |-> c[2], t |-> t, static |-> st]
Whole == Run(0, T(G.nt), FALSE, <<>>)

Inputs == CASE G.family = "masks"   -> {In(Stored, M, <<>>, TRUE) : M \in SUBSET Cells}
            [] G.family = "tiles"   -> {In(Stored, M, <<>>, TRUE) : M \in {Cells, Cells \ {<<1, 1>>}}}
            [] G.family \in {"splits", "tilesplits"} -> {In(Stored, Cells, <<>>, TRUE)}
            [] G.family = "periods" -> {In([n \in 1..G.nt |-> T(f[n])], Cells, <<>>, p) : f \in Perms(G.nt), p \in {TRUE, FALSE}}
            [] G.family = "bad"     -> {In(Stored, M, B, TRUE) : M \in SUBSET Cells, B \in {<<Bad(c, t, st)>> : c \in Cells, t \in Range(Stored), st \in BOOLEAN}}
Next1(d) == CASE G.family = "masks" -> {Whole}
              [] G.family = "bad" -> {Whole, Run(T(2), T(G.nt), FALSE, <<>>)} \cup {Run(0, T(G.nt), FALSE, <<0, G.ny, 1, G.nx>>)}
              [] G.family = "tiles"   -> {Run(0, T(G.nt), FALSE, t) : t \in {u \in Tiles : u[1] < u[2] /\ u[3] < u[4]}}
              [] G.family = "splits"  ->
                    IF DOMAIN d = {}
                    THEN {Run(s, e, FALSE, <<>>) : s \in {T(1), T(2)}, e \in {T(n) : n \in 2..(G.nt-1)}}
                    ELSE {Run(s, e, TRUE, <<>>) : s \in {T(n) : n \in 2..G.nt}, e \in {T(n) : n \in 3..G.nt}}
              [] G.family = "tilesplits" ->
                    LET K == {<<>>} \cup {t \in Tiles : t[1] < t[2] /\ t[3] < t[4]} IN
                    IF DOMAIN d = {} THEN {Run(0, T(2), FALSE, k) : k \in K} ELSE {Run(T(2), T(G.nt), TRUE, k) : k \in K}
              [] G.family = "periods" -> {Run(s, e, FALSE, <<>>) : s \in {-2 * DT, -DT, 0, DT \div 2, DT, T(G.nt), T(G.nt) + DT}, e \in {-DT, 0, DT, DT + (DT \div 2), T(G.nt), T(G.nt) + 2 * DT}}

Runs == G.runs
MInit == inp \in Inputs /\ Init
MSpec == MInit /\ [][Next]_vars
Refused1 == log # <<>> /\ log[Len(log)].refused
Done == pc = "idle" /\ log # <<>> /\ (Len(log) = G.runs \/ Refused1)
Stop == ~Refused1        \* constraint: nothing after a refused run
Emit == Done => PrintT("SES " \o ToJson([inp |-> inp, runs |-> [n \in 1..Len(log) |-> [cf |-> log[n].cf, refused |-> log[n].refused,
                                         order |-> log[n].order, s0 |-> log[n].s0, hi |-> log[n].hi]]]))
=============================================================================
