------------------------------- MODULE Launch -------------------------------
(***************************************************************************)
(* Launching a run: the workers it asks for and the files it leaves behind.   *)
(*                                                                          *)
(* A configuration c has                                                     *)
(*   slurm, workers, port                      (config.toml)                  *)
(*   job: [name, account, cores, nodes, memory, each, extra, local]           *)
(*                                             (the SLURM file)               *)
(*   dir, prefix, level, start, end, restart   (where, how, which period)     *)
(*   last: the input's last time stamp that is not after end                  *)
(* Time stamps are strings "YYYY-MM-DDThh:mm".                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- workers ----
\* all values as text; "auto": the number of processors
Automatic == "auto"
LocalWorkers(c) == [kind |-> "local", workers |-> IF c.workers = 0 THEN Automatic ELSE ToString(c.workers), port |-> ToString(c.port), threads |-> "1"]
Memory(j) == IF j.each = 0 THEN j.memory ELSE ToString(j.each * j.cores) \o "GB"
SlurmWorkers(c) == LET j == c.job IN
    [kind |-> "slurm", name |-> j.name, account |-> j.account, cores |-> ToString(j.cores), processes |-> ToString(j.cores),
     memory |-> Memory(j), extra |-> j.extra, local |-> j.local]
Jobs(c) == c.job.nodes * c.job.cores       \* one worker per core of every node
Workers(c) == IF c.slurm THEN SlurmWorkers(c) ELSE LocalWorkers(c)
\* ---- the life of the cluster: a log of events [e, ...] of one run ----
Positions(log, e) == {i \in 1..Len(log) : log[i].e = e}
Only(s) == CHOOSE x \in s : TRUE
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
OneCluster(log) == Cardinality(Positions(log, "cluster")) = 1
AsConfigured(c, log) == \A i \in Positions(log, "cluster") : log[i].with = Workers(c)
\* the last size asked for before the first cell is waited for
Scaled(c, log) == ~c.slurm \/ LET S == {i \in Positions(log, "scale") : \A j \in Positions(log, "result") : i < j}
                              IN S # {} /\ log[MaxOf(S)].n = Jobs(c)
LocalSize(c, log) == c.slurm \/ Positions(log, "scale") = {}
\* cells are handed out and waited for while the cluster is up
Alive(log) == \A i \in Positions(log, "submit") \cup Positions(log, "result") \cup Positions(log, "client") :
                 /\ \E j \in Positions(log, "cluster") : j < i
                 /\ \A j \in Positions(log, "closed") : i < j
Released(log) == Positions(log, "cluster") = {} \/ Positions(log, "closed") # {}
\* ---- files ----
Day(s) == SubSeq(s, 1, 4) \o SubSeq(s, 6, 7) \o SubSeq(s, 9, 10)
ResultName(c)   == c.dir \o "/output/" \o c.prefix \o "_" \o Day(c.start) \o "-" \o Day(c.end) \o ".nc"
SavedName(c, t) == c.dir \o "/restart/restart_" \o SubSeq(t, 1, 13) \o "-" \o SubSeq(t, 15, 16) \o ".nc"
\* times: the input's time stamps in order.  A restart continues after its start.
Steps(c, times) == LET At(s) == CHOOSE i \in 1..Len(times) : times[i] = s
                   IN SubSeq(times, IF c.restart THEN At(c.start) + 1 ELSE At(c.start), At(c.last))
\* a saved state holds the glacier cells of its run; all runs of a history share the glacier
Refused(c, disk) == c.bad \/ (c.restart /\ SavedName(c, c.start) \notin DOMAIN disk)
\* disk: path -> [by, times, level]
After(disk, c, n, times) ==
    IF Refused(c, disk) THEN disk
    ELSE LET s == Steps(c, times)
             new == [p \in {ResultName(c), SavedName(c, s[Len(s)])} |->
                       [by |-> n, level |-> c.level, times |-> IF p = ResultName(c) THEN s ELSE <<s[Len(s)]>>]]
         IN [p \in DOMAIN disk \cup DOMAIN new |-> IF p \in DOMAIN new THEN new[p] ELSE disk[p]]
=============================================================================
