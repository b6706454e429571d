----------------------------- MODULE SessionGen -----------------------------
(* Random sessions (simulation): inputs of any shape, with gaps and in any    *)
(* storage order, any mask, either grid layout, any choice of result          *)
(* variables, runs and restarts over any period and tile.                     *)
EXTENDS SessionModel, Json, IOUtils
G == JsonDeserialize(IOEnv.GENFILE)   \* maxy, maxx, nt, runs, focus
VARIABLES extra,   \* job of the session: layout, fields, statics
          sel      \* result variables and flags of each run
allvars == <<inp, disk, pc, cf, flying, arrived, res, log, extra, sel>>
One1(S) == RandomElement(S)
Coin(p) == RandomElement(1..100) <= p
Sub(S) == {x \in S : Coin(50)}
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x})
DT == G.dt
Grid1 == {DT * m : m \in 0..(G.nt - 1)}
Atm  == {"RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "TS", "ALBEDO", "Z0"}
Given1 == {"T2", "RH2", "U2", "RRR", "N", "G", "PRES"}
Internal == {"surfMB", "MB", "Q", "SNOWHEIGHT", "TOTALHEIGHT", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION", "CONDENSATION",
             "DEPOSITION", "REFREEZE", "subM", "surfM", "MOL"}
Full == {"HEIGHT", "RHO", "T", "LWC", "CC", "POROSITY", "ICE_FRACTION", "IRREDUCIBLE_WATER", "REFREEZE"}
Base == {"T2", "RH2", "PRES", "G", "U2"}
\* a random value must be drawn exactly once: bind it
PickInp == \E ny \in {One1(1..G.maxy)}, nx \in {One1(1..G.maxx)} :
           \E gaps \in {IF Coin(30) THEN {x \in Grid1 : Coin(25)} ELSE {}} :
           \E ts \in {IF gaps = Grid1 THEN Grid1 ELSE Grid1 \ gaps} :
           \E times \in {IF Coin(40) THEN Shuffle(ts) ELSE SetToSortSeq(ts, LAMBDA a, b : a < b)} :
           \E M \in {{c \in (1..ny) \X (1..nx) : Coin(65)}} :
           \E bad \in {IF G.focus = "bad" \/ Coin(12)
                       THEN [j \in 1..One1(1..2) |-> [y |-> One1(1..ny), x |-> One1(1..nx), t |-> One1(ts), static |-> Coin(20)]] ELSE <<>>} :
              inp = [times |-> times, ny |-> ny, nx |-> nx, bad |-> bad, present |-> ~Coin(2), dt |-> DT,
                     mask |-> [y \in 1..ny |-> [x \in 1..nx |-> IF <<y, x>> \in M THEN 1 ELSE 0]]]
PickExtra == \E wrf \in {IF G.focus = "wrf" THEN TRUE ELSE Coin(30)} :
             \E p \in {One1({<<"RRR">>, <<"RRR">>, <<"SNOWFALL">>, <<"RRR", "SNOWFALL">>})} : \E l \in {One1({<<"N">>, <<"N">>, <<"LWin">>, <<"N", "LWin">>})} :
             \E st \in {One1({<<"HGT">>, <<"HGT", "SLOPE">>, <<"HGT", "SLOPE", "ASPECT">>, <<"HGT", "SLOPE", "SNOWHEIGHT">>, <<"SLOPE">>})} :
             extra = [wrf |-> wrf, fields |-> <<"T2", "RH2", "PRES", "G", "U2">> \o p \o l, statics |-> st, outside |-> IF Coin(50) THEN <<>> ELSE <<0>>,
                      which |-> One1(0..8),
                      config |-> [force_use_TP |-> Coin(30) /\ "RRR" \in Range(p), force_use_N |-> Coin(30) /\ "N" \in Range(l)], seed |-> One1(1..1000)]
GInit == PickInp /\ PickExtra /\ sel = <<>> /\ disk = Nothing /\ pc = "idle" /\ cf = <<>> /\ flying = {} /\ arrived = <<>> /\ res = Nothing /\ log = <<>>

Tile == IF Coin(60) THEN <<>>
        ELSE LET a == One1(0..(inp.ny-1)) c == One1(0..(inp.nx-1)) IN <<a, One1((a+1)..(inp.ny+1)), c, One1((c+1)..(inp.nx+1))>>
Edge == {-DT, DT * G.nt, DT * G.nt + DT}
StartAt(d) == IF d = {} THEN One1(Grid1 \cup {DT \div 2} \cup (IF Coin(20) THEN Edge ELSE {0})) ELSE One1(d)
RunCf(d, tile) == \E rs \in {DOMAIN d # {} /\ Coin(80)} : \E s \in {StartAt(IF rs THEN DOMAIN d ELSE {})} :
              \E e \in {IF Coin(8) THEN One1(Edge \cup Grid1) ELSE One1({x \in Grid1 \cup {DT * G.nt - DT, DT * G.nt - (DT \div 2)} : x >= s} \cup {DT * G.nt - DT})} :
                  Begin([start |-> s, end |-> e, restart |-> rs, tile |-> tile, dt |-> DT])
PickSel == \E a \in {IF Coin(50) THEN Atm ELSE Sub(Atm \cup Given1)}, i \in {IF Coin(50) THEN Internal ELSE Sub(Internal)}, f \in {IF Coin(50) THEN Full ELSE Sub(Full)} :
           \E fs \in {[atm |-> Shuffle(a), internal |-> Shuffle(i), full |-> Shuffle(f), full_field |-> Coin(40), compression_level |-> One1(1..5)]} : sel' = Append(sel, fs)
GNext == \/ (\E tl \in {Tile} : RunCf(disk, tl)) /\ PickSel /\ extra' = extra
         \/ (Refuse \/ Submit \/ (flying # {} /\ \E p \in {One1(flying)} : Collect(p)) \/ Write) /\ UNCHANGED <<extra, sel>>
GSpec == GInit /\ [][GNext]_allvars
Emit == (pc = "idle" /\ log # <<>> /\ (Len(log) = G.runs \/ log[Len(log)].refused)) =>
        PrintT("SES " \o ToJson([inp |-> inp, job |-> extra, runs |-> [n \in 1..Len(log) |-> [cf |-> log[n].cf, refused |-> log[n].refused,
                                         order |-> log[n].order, s0 |-> log[n].s0, hi |-> log[n].hi, sel |-> sel[n]]]]))
Stop == ~(log # <<>> /\ log[Len(log)].refused)
Runs == G.runs
NoPalette(d) == {}
=============================================================================
