------------------------------ MODULE Coupled ------------------------------
(***************************************************************************)
(* Coupled stepping (C23).  The step of the core is a free (uninterpreted)   *)
(* function of what it reads, written as a term, so that what holds here     *)
(* holds for every such function.  A standalone run keeps the column, the    *)
(* memory of the last snowfall and what the albedo carries from step to step;*)
(* a coupled call starts from what the caller hands back: the column and the *)
(* memory, everything else anew.                                             *)
(***************************************************************************)
EXTENDS Sequences, Integers, TLC
CONSTANTS Weathers, Depth,
          FileAlbedo     \* the albedo methods a constants file may name
VARIABLES file,          \* the method in the constants file
          word,          \* the weather so far
          alone,         \* standalone: col, mem, carry and the reports
          pair           \* coupled: col, mem (handed over) and the reports
cvars == <<file, word, alone, pair>>
Forced == "Oerlemans98"
Reads(method, s, w) == IF method = "Bougamont05" THEN <<s.col, s.mem, s.carry, w>> ELSE <<s.col, s.mem, w>>
Next_(method, s, w) == [col |-> <<"col", Reads(method, s, w)>>, mem |-> <<"mem", s.mem, w>>, carry |-> <<"carry", Reads(method, s, w)>>,
                        out |-> Append(s.out, <<"out", Reads(method, s, w)>>)]
Fresh == [col |-> "init", mem |-> "init", carry |-> "init", out |-> <<>>]
Handed(s) == [s EXCEPT !.carry = "init"]        \* what survives between two coupled calls
CInit == file \in FileAlbedo /\ word = <<>> /\ alone = Fresh /\ pair = Fresh
CStep(w) == /\ Len(word) < Depth /\ word' = Append(word, w)
            /\ alone' = Next_(Forced, alone, w)
            /\ pair' = Next_(Forced, Handed(pair), w)
            /\ UNCHANGED file
CNext == \E w \in Weathers : CStep(w)
CSpec == CInit /\ [][CNext]_cvars
SameReports == alone.out = pair.out /\ alone.col = pair.col /\ alone.mem = pair.mem

\* --- where a coupled call returns what (positions from 1) ------------------------
Position == [LWout |-> 7, H |-> 8, LE |-> 9, B |-> 10, QRR |-> 11, MB |-> 12, surfMB |-> 13, Q |-> 14, SNOWHEIGHT |-> 15, TOTALHEIGHT |-> 16,
    TS |-> 17, ALBEDO |-> 18, LAYERS |-> 19, ME |-> 20, intMB |-> 21, EVAPORATION |-> 22, SUBLIMATION |-> 23, CONDENSATION |-> 24,
    DEPOSITION |-> 25, REFREEZE |-> 26, subM |-> 27, Z0 |-> 28, surfM |-> 29, MOL |-> 33]
Memory   == <<30, 31, 32>>
LayerAt  == [HEIGHT |-> 34, RHO |-> 35, T |-> 36, LWC |-> 37, ICE_FRACTION |-> 40]
=============================================================================
