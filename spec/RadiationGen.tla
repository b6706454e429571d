----------------------------- MODULE RadiationGen -----------------------------
(***************************************************************************)
(* Random places, times and grounds (TLC -simulate), and the laws of the      *)
(* specification itself: level ground keeps the measurement, the sun and the   *)
(* ground are unit vectors, the diffuse share always arrives, the sun is       *)
(* highest at solar noon.                                                    *)
(***************************************************************************)
EXTENDS Radiation, Json, IOUtils, TLC
G == JsonDeserialize(IOEnv.GENFILE)     \* len
VARIABLES calls, phase
vars == <<calls, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Make(r) ==
    LET mer == Pick(r[1], <<R("0"), R("15"), R("90"), R("-75"), R("180")>>)
    IN [lat |-> Pick(r[2], <<U(r[3], "-90", "90"), U(r[3], "-25", "25"), R("46.8"), R("0"), R("78.9"), U(r[3], "25", "60")>>),
        mer |-> mer, lon |-> Pick(r[4], <<mer, mer (+) U(r[5], "-20", "20"), mer (+) U(r[5], "-7.5", "7.5")>>),
        day |-> 1 + (r[6] % 366), hour |-> Pick(r[7], <<U(r[8], "0", "24"), RI(r[8] % 24), U(r[8], "8", "16"), R("12")>>),
        slope |-> Pick(r[9], <<Zero, U(r[10], "0", "90"), U(r[10], "0", "35"), R("30")>>),
        aspect |-> Pick(r[11], <<U(r[12], "-180", "180"), R("0"), R("90"), R("-90"), R("180"), U(r[12], "0", "360")>>),
        rm |-> Pick(r[13], <<Zero, U(r[14], "0", "1300"), U(r[14], "0", "200"), U(r[14], "400", "1100"), R("0.001")>>),
        thld |-> Pick(r[15], <<R("89"), R("85"), U(r[16], "40", "89.5"), R("60")>>)]
GInit == calls = <<>> /\ phase = "draw"
Add == phase = "draw" /\ Len(calls) < G.len /\ (\E r \in {Rolls(16)} : calls' = Append(calls, Make(r))) /\ UNCHANGED phase
Done == phase = "draw" /\ Len(calls) = G.len /\ PrintT("SUN " \o ToJson(calls)) /\ phase' = "done" /\ UNCHANGED calls
GSpec == GInit /\ [][Add \/ Done]_vars
C == calls[Len(calls)]
S == Sun(C.lat, C.lon, C.mer, C.day, C.hour)
Val_(slope) == Corrected(C.lat, C.lon, C.mer, C.day, C.hour, slope, C.aspect, C.rm, C.thld)
Tiny == R("1e-9")
Level == calls = <<>> \/ S.up \preceq Zero \/ RClose(Val_(Zero), C.rm, Tiny, Tiny)
Units == calls = <<>> \/ (RClose(Dot(S, S), One, Tiny, Tiny) /\ LET n == Normal(C.slope, C.aspect) IN RClose(Dot(n, n), One, Tiny, Tiny))
Diffuse == calls = <<>> \/ ~High(S.up, C.thld) \/ (C.rm (.) Share(C.day, S.up, C.rm)) (-) Tiny \preceq Val_(C.slope)
Limits == calls = <<>> \/ ~High(S.up, C.thld) \/ (Least \preceq Share(C.day, S.up, C.rm) /\ Share(C.day, S.up, C.rm) \preceq One)
Noon == calls = <<>> \/ LET n == Sun(C.lat, C.lon, C.mer, C.day, (RI(12) (-) EqTime(C.day)) (-) ((C.lon (-) C.mer) (/) RI(15)))
                        IN S.up (-) Tiny \preceq n.up /\ RClose(n.west, Zero, Tiny, Tiny)
=============================================================================
