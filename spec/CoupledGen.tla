------------------------------ MODULE CoupledGen ------------------------------
(* Random weather and coupling parameters for chains of coupled calls.         *)
EXTENDS RunGen
VARIABLE cp
DTs == <<60, 300, 600, 1800, 3600>>
CInit == GInit /\ cp = <<>>
DrawC == /\ Draw
         /\ \E r \in {Rolls(4)} : cp' = [zlvl |-> U(r[1], "2", "30"), dt |-> Pick(r[2], DTs), x |-> r[3] % 4, y |-> r[4] % 4]
StepC == Step /\ UNCHANGED cp
DoneC == /\ phase = "go" /\ Len(F) = G.len
         /\ PrintT("CPL " \o ToJson([k |-> k, src |-> src, F |-> F, cp |-> cp])) /\ phase' = "done" /\ UNCHANGED <<k, src, base, F, cp>>
CSpec == CInit /\ [][DrawC \/ StepC \/ DoneC]_<<k, src, base, F, phase, cp>>
=============================================================================
