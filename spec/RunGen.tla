-------------------------------- MODULE RunGen --------------------------------
(***************************************************************************)
(* Random weather for whole runs (TLC -simulate): a day's cycle around a    *)
(* drifting mean, showers, storms, calms; which fields the input offers and  *)
(* which options the run uses are drawn per behaviour.  Printed as "WX"      *)
(* lines when LEN steps long.                                                *)
(***************************************************************************)
EXTENDS R64, Json, IOUtils, TLC, Sequences, Integers
G == JsonDeserialize(IOEnv.GENFILE)     \* len, ks (number of constant sets), dt hours
VARIABLES k, src, base, F, phase
vars == <<k, src, base, F, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Precips == <<"RRR", "RRR", "SNOWFALL", "both", "forceTP">>
Longs   == <<"N", "LWin", "both", "forceN">>
GInit == /\ k \in 1..G.ks /\ src = <<>> /\ base = <<>> /\ F = <<>> /\ phase = "draw"
Draw == /\ phase = "draw"
        /\ \E r \in {Rolls(12)} :
             /\ src' = [precip |-> Pick(r[1], Precips), long |-> Pick(r[2], Longs),
                        slope |-> IF r[3] % 3 = 0 THEN Zero ELSE U(r[4], "0", "45"),
                        snow |-> CASE r[5] % 4 = 0 -> Zero [] r[5] % 4 = 1 -> U(r[6], "0.001", "0.05") [] OTHER -> U(r[6], "0.0", "1.5"),
                        hassnow |-> r[7] % 2 = 0, start |-> r[8] % 24, hours |-> Pick(r[12], <<G.hours, 3, 5, 7>>)]
             /\ base' = [T |-> U(r[9], "258", IF r[9] % 4 = 0 THEN "286" ELSE "278"), amp |-> U(r[10], "0", "9"), P |-> U(r[11], "520", "900"), wet |-> r[12] % 3]
        /\ phase' = "go" /\ UNCHANGED <<k, F>>
Step == /\ phase = "go" /\ Len(F) < G.len
        /\ \E r \in {Rolls(16)} :
             LET hour == (src.start + (Len(F) * src.hours)) % 24
                 sun == RMax(Zero, RSin(((RI(hour) (-) RI(6)) (/) RI(12)) (.) RPi))
                 rain == CASE r[1] % 4 < base.wet -> U(r[2], "0", "9")
                           [] r[1] % 11 = 0 -> U(r[2], "0", "0.6") [] OTHER -> Zero
                 T == (base.T (+) (base.amp (.) (sun (-) R("0.4")))) (+) U(r[3], "-2", "2")
             IN F' = Append(F, [T2 |-> RMax(R("244"), T), RH2 |-> IF Zero \prec rain THEN U(r[4], "80", "100") ELSE U(r[4], "8", "100"),
                    PRES |-> base.P (+) U(r[5], "-3", "3"),
                    G |-> IF sun = Zero THEN (IF r[6] % 3 = 0 THEN U(r[7], "-4", "0") ELSE Zero) ELSE sun (.) U(r[7], "60", "1050"),
                    U2 |-> IF r[8] % 9 = 0 THEN Zero ELSE IF r[8] % 5 = 0 THEN U(r[9], "8", "22") ELSE U(r[9], "0.2", "7"),
                    RRR |-> rain,
                    SNOWFALL |-> CASE rain = Zero -> Zero [] r[10] % 4 = 0 -> Zero [] r[10] % 7 = 1 -> U(r[11], "0", "0.002")
                                   [] OTHER -> (rain (/) RI(1000)) (.) U(r[11], "0.5", "12"),
                    LWin |-> U(r[12], "170", "360"), N |-> IF r[13] % 4 = 0 THEN RI(r[14] % 2) ELSE U(r[14], "0", "1")])
        /\ UNCHANGED <<k, src, base, phase>>
Done == /\ phase = "go" /\ Len(F) = G.len
        /\ PrintT("WX " \o ToJson([k |-> k, src |-> src, F |-> F])) /\ phase' = "done" /\ UNCHANGED <<k, src, base, F>>
GSpec == GInit /\ [][Draw \/ Step \/ Done]_vars
=============================================================================
