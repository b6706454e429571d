------------------------------- MODULE GridGen -------------------------------
(***************************************************************************)
(* Random histories of operations on two column objects (TLC -simulate),     *)
(* printed as driver jobs; the promises of GridModel are checked on the way. *)
(***************************************************************************)
EXTENDS Grid, Json, IOUtils, TLC
G == JsonDeserialize(IOEnv.GENFILE)     \* ks: constants, k: which, depth
K == G.ks[G.k]
VARIABLES pair, op, hist, phase
vars == <<pair, op, hist, phase>>
M == INSTANCE GridModel
Million == 1000000
Rolls(n) == Now([j \in 1..n |-> RandomElement(0..(Million-1))])
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Mix(x, y, lo, hi, specials) == IF x % 3 = 0 /\ Len(specials) > 0 THEN Pick(y, specials) ELSE U(y, lo, hi)
Wet(x, i) == CASE x % 4 = 0 -> Zero [] x % 4 = 1 -> U(x, "0", "0.08") [] x % 4 = 2 -> RMax(Zero, One (-) i) (.) (RI(x) (/) RI(Million)) [] OTHER -> U(x, "0", "0.9")
IceF(x, y) == Mix(x, y, "0.03", "1.0", <<R("0.23"), R("0.812"), R("0.2300001"), R("0.8120001"), One, R("0.9")>>)
Hgt(x, y) == Mix(x, y, "0.0005", "0.6", <<K.minimum_snow_layer_height, K.first_layer_height, R("0.5"), R("0.1")>>)
Tmp(x, y) == Mix(x, y, "220", "273.16", <<K.zero_temperature, R("273.0"), R("274.0"), R("250")>>)
Draw(what, r, j, i) == CASE what = "height" -> Hgt(r[j], r[j+1]) [] what = "temperature" -> Tmp(r[j], r[j+1]) [] what = "ice_fraction" -> IceF(r[j], r[j+1])
                         [] what = "refreeze" -> Mix(r[j], r[j+1], "0", "0.01", <<Zero>>) [] OTHER -> Wet(r[j+1], i)
\* [height, density, temperature, water, ice fraction]
Rows(r) == LET byDensity == r[1] % 3 = 0 IN
    Now([n \in 1..Pick(r[2], <<1, 2, 3, 4, 5, 7>>) |->
        LET i == IceF(r[10*n], r[10*n+1]) IN
        <<Hgt(r[10*n+2], r[10*n+3]), Mix(r[10*n+6], r[10*n+7], "60", "917", <<R("250"), K.snow_ice_threshold, R("899"), R("901")>>), Tmp(r[10*n+4], r[10*n+5]),
          Wet(r[10*n+8], i), IF byDensity THEN None ELSE i>>])
Memory(r) == IF r[3] % 4 = 0 THEN None ELSE <<Mix(r[4], r[5], "0", "0.2", <<Zero>>), Mix(r[6], r[7], "0", "900000", <<Zero>>), Mix(r[8], r[9], "0", "4000000", <<RI(3600)>>)>>

No == [op |-> "start", g |-> 0, n |-> 0, what |-> "", at |-> <<>>, x |-> <<>>]
\* one drawn operation on an object of L layers
Names == <<"set", "set", "set", "all", "all", "update", "remove", "remove", "merge", "split", "melt", "snow", "snow", "age", "fresh", "depth", "back", "read">>
Operation(r, s) ==
    LET L == Len(s.c)
        n == 1 + (r[2] % L)
        what == Pick(r[3], <<"height", "temperature", "ice_fraction", "liquid_water_content", "refreeze">>)
        some == {j \in 1..L : r[4 + j] % 3 = 0}
        wish == Pick(r[1], Names)
        name == IF (wish \in {"remove", "merge", "melt"} /\ L < 2) \/ (wish = "remove" /\ Cardinality(some) = L) \/ (wish \in {"snow", "split"} /\ L > 8) THEN "set" ELSE wish
        O == [No EXCEPT !.op = name, !.n = n]
    IN CASE name = "set" -> [O EXCEPT !.what = what, !.x = <<Draw(what, r, 20, s.c[n].i)>>]
         [] name = "all" -> [O EXCEPT !.what = what, !.x = Now([j \in 1..L |-> Draw(what, r, 20 + 2 * j, s.c[j].i)])]
         [] name = "update" -> [O EXCEPT !.x = LET i == IceF(r[24], r[25]) IN <<Hgt(r[20], r[21]), Tmp(r[22], r[23]), i, Wet(r[26], i)>>]
         [] name = "remove" -> [O EXCEPT !.what = IF r[4] % 5 = 0 THEN "none" ELSE IF some = {} THEN "empty" ELSE "list",
                                         !.at = LET q == SelectSeq([j \in 1..L |-> j], LAMBDA j : j \in some) IN IF r[4] % 2 = 0 THEN q ELSE [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]]
         [] name = "merge" -> [O EXCEPT !.n = 1 + (r[2] % (L - 1))]
         [] name = "melt" -> LET m == 1 + (r[2] % (L - 1)) IN
                             [O EXCEPT !.n = m, !.x = <<IF r[20] % 4 = 0 THEN Zero ELSE IF r[20] % 4 = 1 THEN Swe(K, s.c[m]) (.) R("1.000001") ELSE
                                                        (Swe(K, s.c[m]) (+) (IF m + 1 < L THEN Swe(K, s.c[m+1]) ELSE Zero)) (.) (RI(r[21]) (/) RI(Million))>>]
         [] name = "snow" -> [O EXCEPT !.x = <<Mix(r[20], r[21], "0.0001", "0.1", <<K.minimum_snowfall>>), Mix(r[22], r[23], "50", "400", <<R("250")>>), Tmp(r[24], r[25]),
                                               Wet(r[26], R("0.3")), Pick(r[27], <<K.dt, RI(60), RI(86400)>>)>>]
         [] name = "age" -> [O EXCEPT !.x = <<Pick(r[20], <<K.dt, RI(60), RI(86400), Zero>>)>>]
         [] name = "fresh" -> [O EXCEPT !.x = <<U(r[20], "0", "0.3")>>]
         [] name = "depth" -> [O EXCEPT !.x = <<U(r[20], "-0.1", "0.3")>>]
         [] OTHER -> O
GInit == pair = <<>> /\ op = No /\ hist = <<>> /\ phase = "build"
Build == /\ phase = "build"
         /\ \E r \in {Rolls(90)}, q \in {Rolls(90)} : \E a \in {<<Rows(r), Rows(q)>>}, b \in {<<Memory(r), Memory(q)>>} :
              /\ pair' = <<[c |-> Built(K, a[1]), m |-> Remember(b[1])], [c |-> Built(K, a[2]), m |-> Remember(b[2])]>>
              /\ hist' = <<[rows |-> a, memory |-> b]>>
         /\ phase' = "go" /\ op' = No
DoOp == /\ phase = "go" /\ Len(hist) <= G.depth
        /\ \E g \in {RandomElement(1..2)} : \E r \in {Rolls(60)} : \E o \in {Operation(r, pair[g])} :
             /\ op' = [o EXCEPT !.g = g]
             /\ \E s \in {CHOOSE s \in Apply(K, pair[g], o) : TRUE} : pair' = [pair EXCEPT ![g] = s]
             /\ hist' = Append(hist, [o EXCEPT !.g = g])
        /\ UNCHANGED phase
Finish == /\ phase = "go" /\ Len(hist) > G.depth /\ PrintT("GRD " \o ToJson(hist)) /\ phase' = "done" /\ UNCHANGED <<pair, op, hist>>
GSpec == GInit /\ [][Build \/ DoOp \/ Finish]_vars
Promises == phase = "build" \/ M!WellDefined
Keeps == M!Kept
=============================================================================
