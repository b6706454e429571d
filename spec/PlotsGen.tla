------------------------------- MODULE PlotsGen -------------------------------
(***************************************************************************)
(* Random result files and selections (TLC -simulate), and laws of the        *)
(* specification itself: a daily mean stays between the extremes of the day and  *)
(* is the value itself when there is one step, the layers lie on each other.    *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils, TLC
VARIABLES conf, phase
vars == <<conf, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
Pick(x, s) == s[1 + (x % Len(s))]
Chance(x, percent) == (x \div 7) % 100 < percent
Conf(r) ==
    LET kind == Pick(r[1], <<"field", "field", "stamp", "vtk", "profile", "series">>)
        flat == kind \in {"profile", "series"} /\ Chance(r[2], 35)       \* a single cell
        line == kind \in {"field", "stamp", "vtk"} /\ Chance(r[2], 8)    \* not two-dimensional
        every == Pick(r[3], <<1, 1, 3, 12>>)
        t0 == r[4] % 30
        nt == 2 + (r[5] % (IF kind = "series" THEN 7 ELSE 26))
        pick == t0 + (r[6] % nt) * every
        mean == kind \in {"field", "stamp", "vtk"} /\ Chance(r[7], 40)
        a == r[8] % nt  b == a + (r[9] % (nt - a))
    IN [kind |-> kind, flat |-> flat, ny |-> IF flat THEN 1 ELSE 2 + (r[10] % 3), nx |-> IF flat \/ line THEN 1 ELSE 2 + (r[11] % 3),
        salt |-> r[12], t0 |-> t0, nt |-> nt, every |-> every, mean |-> mean, when |-> pick,
        day |-> (kind \in {"field", "stamp"} /\ Chance(r[13], 12)) \/ (mean /\ Chance(r[13], 60)),      \* names a day instead of a time
        shift |-> IF kind = "vtk" /\ ~mean THEN (r[25] % 41) - 20 ELSE 0,       \* minutes beside a step
        var |-> Pick(r[14], <<"TS", "MB", "G", "SNOWHEIGHT", "LE", "REFREEZE", "Q", "HGT">>),
        type |-> 1 + (r[15] % 2), style |-> r[16] % 4, save |-> Chance(r[17], 50), layers |-> 3 + (r[18] % 6),
        lvar |-> Pick(r[19], <<"RHO", "T", "IF", "REF", "LWC", "POR", "DEPTH", "HEIGHT">>), at |-> <<1 + (r[20] % 7), 1 + (r[21] % 7)>>,
        off |-> <<(r[22] % 81) - 40, (r[23] % 81) - 40>>, depths |-> Pick(r[24], <<<<>>, <<0, 37>>, <<13, 61, 170>>>>), span |-> IF Chance(r[26], 50) THEN <<>> ELSE <<a, b>>,
        \* measured heights (cm) at hours of which some are no steps
        stakes |-> IF kind = "series" /\ Chance(r[27], 60) THEN <<>> \o [i \in 1..(1 + (r[28] % 4)) |->
            <<t0 + i - 2 + IF r[29] % 2 = 0 THEN (i - 2) * every ELSE (r[29] \div 7) % (nt * every), IF (r[28] \div (7 * i)) % 5 = 0 THEN -9999 ELSE (r[30] \div i) % 250>>] ELSE <<>>]
GInit == conf = <<>> /\ phase = "draw"
\* the chosen cell lies on the glacier; there are two at least
Cell(c) == <<1 + ((c.at[1] - 1) % c.ny), 1 + ((c.at[2] - 1) % c.nx)>>
Fine(c) == /\ (c.kind \in {"profile", "series"} => Glacier(c, Cell(c)[1], Cell(c)[2]))
           /\ Cardinality({p \in (1..c.ny) \X (1..c.nx) : Glacier(c, p[1], p[2])}) >= 2 \/ c.kind \in {"profile", "series"}
Draw == /\ phase = "draw"
        /\ \E r \in {Rolls(30)} : LET c == Conf(r) IN
             IF Fine(c) THEN conf' = [c EXCEPT !.at = Cell(c)] /\ phase' = "done" /\ PrintT("PLT " \o ToJson(conf')) ELSE UNCHANGED vars
GSpec == GInit /\ [][Draw]_vars
\* --- the specification itself
Full == phase = "done"
MeanBetween == (Full /\ conf.mean) => \A y \in 1..conf.ny, x \in 1..conf.nx : Glacier(conf, y, x) =>
    LET S == OfDay(conf, conf.when \div 24)  m == Over(conf, "TS", S, y, x)
    IN S # {} /\ \E a, b \in S : At(conf, "TS", a, y, x) \preceq m (+) R("1e-9") /\ m \preceq At(conf, "TS", b, y, x) (+) R("1e-9")
                 /\ (Cardinality(S) = 1 => m = At(conf, "TS", a, y, x))
Stacked == Full => LET y == conf.at[1]  x == conf.at[2] IN (y <= conf.ny /\ x <= conf.nx) =>
    \A l \in 1..Count(conf, 1, y, x) : Depth(conf, 1, y, x, l-1) \prec Depth(conf, 1, y, x, l) /\ Snow(conf, 1, y, x) \preceq Depth(conf, 1, y, x, Count(conf, 1, y, x))
Distinct == Full => \A s, t \in Steps(conf) : s # t => At(conf, "MB", s, 1, 1) # At(conf, "MB", t, 1, 1) \/ ~Glacier(conf, 1, 1)
=============================================================================
