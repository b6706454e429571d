-------------------------------- MODULE MCRun --------------------------------
(* All weather words of length GENFILE.len over the palette, all constants,   *)
(* all configurations: checked on the model and emitted for replay.           *)
EXTENDS RunModel
G == JsonDeserialize(IOEnv.GENFILE)     \* len, words: how many of the regimes, sample
Reg(T2, RH2, G_, U2, RRR, N) == [T2 |-> R(T2), RH2 |-> R(RH2), PRES |-> R("700"), G |-> R(G_), U2 |-> R(U2), RRR |-> R(RRR), SNOWFALL |-> None, LWin |-> None, N |-> R(N)]
Palette == <<
    Reg("263", "90", "40", "4", "6", "1"),        \* snowfall
    Reg("276", "95", "120", "5", "5", "1"),       \* rain
    Reg("280", "40", "850", "3", "0", "0"),       \* melt
    Reg("258", "50", "0", "2", "0", "0"),         \* clear night
    Reg("279", "85", "300", "8", "0", "0.3"),     \* warm wind: condensation
    Reg("268", "30", "500", "0", "1.2", "0.5"),   \* calm, a little snow
    Reg("274.2", "70", "-3", "3", "2.5", "0.8"),  \* mixed precipitation, negative radiation record
    Reg("262", "20", "600", "12", "0.25", "0.2"), \* dry wind: sublimation, snow below the threshold
    Reg("287", "45", "950", "5", "0", "0")        \* heat: a large surplus at the melting point
  >>
Words == 1..G.words
Confs == {[forceTP |-> FALSE, forceN |-> FALSE, SLOPE |-> s, coupled |-> FALSE] : s \in {RI(0), RI(25)}}
Snows == {None, Zero, R("0.006")}
MInit == RunStart
MNext == \/ \E i \in Words, c \in Confs, s \in Snows : (c.SLOPE = RI(0) \/ s # Zero) /\ Begin(c, Palette[i], s)
         \/ /\ Len(word) < G.len /\ \E i \in Words : Tick(Palette[i])
         \/ Steps
MSpec == MInit /\ [][MNext]_rvars
\* emit a complete word with what the specification says it produces
Emit == /\ Complete /\ Len(word) = G.len
        => PrintT("RUN " \o ToJson([k |-> k, word |-> word, cf |-> cf]))
=============================================================================
