------------------------------ MODULE LaunchGen ------------------------------
(***************************************************************************)
(* Random histories of runs (TLC -simulate) that share a disk: local or       *)
(* SLURM workers, other directories, prefixes, periods and compression from   *)
(* run to run, restarts, and runs that must fail.  Checks on the way what the *)
(* specification itself promises about the disk.                             *)
(***************************************************************************)
EXTENDS Launch, Json, IOUtils
G == JsonDeserialize(IOEnv.GENFILE)     \* times, after (a stamp between each and the next one), runs
VARIABLES hist, disk, phase
vars == <<hist, disk, phase>>
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..999999)]
Pick(x, s) == s[1 + (x % Len(s))]
Dirs == <<<<"./data/", "data">>, <<"data", "data">>, <<"./other", "other">>, <<"./data/deep/x/", "data/deep/x">>>>
Prefixes == <<"out", "Zhadang_ERA5", "run.2", "out">>
Extras == <<<<>>, <<"--nodes=1", "--time=00:10:00">>, <<"--mem='4G'", "--qos=short", "-p work">>, <<"--nodes=1", "--error=slurm.err", "--output=slurm.out">>>>
Config(r) ==
    LET nt == Len(G.times)
        saved == {i \in 1..(nt-1) : \E d \in {Pick(r[7], Dirs)[2]} : (d \o "/restart/restart_" \o SubSeq(G.times[i], 1, 13) \o "-" \o SubSeq(G.times[i], 15, 16) \o ".nc") \in DOMAIN disk}
        restart == r[1] % 3 = 0 /\ (saved # {} \/ r[1] % 2 = 0)
        a == IF restart /\ saved # {} /\ r[2] % 5 # 0 THEN MinOf(saved) ELSE 1 + (r[3] % (nt - 1))
        b == IF ~restart /\ r[4] % 4 = 0 THEN a ELSE a + 1 + (r[4] % (nt - a))   \* one step, or more
    IN [slurm |-> r[5] % 2 = 0, workers |-> Pick(r[6], <<0, 1, 3, 16>>), port |-> Pick(r[8], <<8786, 9001, 0>>),
        job |-> [name |-> Pick(r[9], <<"test_cosipy_slurm", "Worker", "x y">>), account |-> Pick(r[10], <<"", "prj42">>),
                 cores |-> 1 + (r[11] % 8), nodes |-> 1 + (r[12] % 5), memory |-> Pick(r[13], <<"4G", "30GB", "512MB">>),
                 each |-> Pick(r[14], <<0, 0, 3, 7>>), extra |-> Pick(r[15], Extras), local |-> Pick(r[16], <<"./logs/dask-worker-space", "scratch/w">>)],
        rawdir |-> Pick(r[7], Dirs)[1], dir |-> Pick(r[7], Dirs)[2], prefix |-> Pick(r[17], Prefixes), level |-> r[18] % 10,
        full |-> r[19] % 3 = 0, start |-> G.times[a], end |-> (IF r[21] % 3 = 0 THEN G.after[b] ELSE G.times[b]), last |-> G.times[b], restart |-> restart, bad |-> r[20] % 7 = 0, turn |-> r[21] % 24]
\* another run over the same days into the same file as the last one, of other steps
Twins(c) == LET p == hist[Len(hist)]  n == Len(G.times) IN
    {[c EXCEPT !.dir = p.dir, !.rawdir = p.rawdir, !.prefix = p.prefix, !.restart = FALSE, !.start = G.times[a], !.end = G.times[b], !.last = G.times[b]] :
        <<a, b>> \in {q \in (1..n) \X (1..n) : q[1] <= q[2] /\ Day(G.times[q[1]]) = Day(p.start) /\ Day(G.times[q[2]]) = Day(p.end)}}
GInit == hist = <<>> /\ disk = [p \in {} |-> <<>>] /\ phase = "run"
DoRun == /\ phase = "run" /\ Len(hist) < G.runs
         /\ \E r \in {Rolls(22)} : \E d \in {Config(r)} : \E c \in {IF hist # <<>> /\ r[22] % 3 = 0 THEN RandomElement(Twins(d)) ELSE d} :
              /\ hist' = Append(hist, c) /\ disk' = After(disk, c, Len(hist) + 1, G.times)
         /\ UNCHANGED phase
Done == /\ phase = "run" /\ Len(hist) = G.runs /\ PrintT("LCH " \o ToJson(hist)) /\ phase' = "done" /\ UNCHANGED <<hist, disk>>
GSpec == GInit /\ [][DoRun \/ Done]_vars
\* every path belongs to an accepted run, and results and saved states never share a name
Owned == \A p \in DOMAIN disk : disk[p].by \in 1..Len(hist) /\ Len(disk[p].times) > 0
\* what a run has left is there for a restart at its last step in the same directory
Continues == \A n \in 1..Len(hist) : LET c == hist[n] IN
    (\E p \in DOMAIN disk : disk[p].by = n) => SavedName(c, c.last) \in DOMAIN disk
\* one run changes nothing but its own files
Local == [][\A p \in DOMAIN disk : disk'[p] = disk[p] \/ disk'[p].by = Len(hist')]_vars
=============================================================================
