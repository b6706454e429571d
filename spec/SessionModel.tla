---------------------------- MODULE SessionModel ----------------------------
(***************************************************************************)
(* The main program as a transition system: read, submit every glacier cell *)
(* to the workers, collect the results in whatever order they finish, write *)
(* the result and the saved state.  Runs follow each other on one disk.      *)
(***************************************************************************)
EXTENDS Sessions, TLC
CONSTANT MaxRuns, Palette(_)     \* Palette(disk): configurations that may be run next
VARIABLES inp,       \* the input
          disk,      \* saved states
          pc, cf, flying, arrived,    \* the current run
          res,       \* its result: place -> lineage (absent: undefined)
          log        \* the finished runs
vars == <<inp, disk, pc, cf, flying, arrived, res, log>>
Nothing == [p \in {} |-> <<>>]

Init == /\ disk = Nothing /\ pc = "idle" /\ cf = <<>> /\ flying = {} /\ arrived = <<>> /\ res = Nothing /\ log = <<>>
Begin(c) == /\ pc = "idle" /\ Len(log) < MaxRuns
            /\ cf' = c /\ flying' = {} /\ arrived' = <<>> /\ res' = Nothing
            /\ IF Refused(inp, c, disk) THEN pc' = "refuse" ELSE pc' = "submit"
            /\ UNCHANGED <<inp, disk, log>>
Refuse == /\ pc = "refuse" /\ pc' = "idle"
          /\ log' = Append(log, [cf |-> cf, refused |-> TRUE, order |-> <<>>, res |-> Nothing, s0 |-> 0, hi |-> 0])
          /\ UNCHANGED <<inp, disk, cf, flying, arrived, res>>
Submit == /\ pc = "submit" /\ flying' = Glacier(inp, cf) /\ pc' = "collect"
          /\ UNCHANGED <<inp, disk, cf, arrived, res, log>>
Collect(p) == /\ pc = "collect" /\ p \in flying
              /\ flying' = flying \ {p} /\ arrived' = Append(arrived, p)
              /\ res' = Put(res, p, Lineage(inp, cf, disk, p))
              /\ UNCHANGED <<inp, disk, pc, cf, log>>
Write == /\ pc = "collect" /\ flying = {}
         /\ disk' = Put(disk, LastOf(inp, cf), Saved(inp, cf, disk))
         /\ log' = Append(log, [cf |-> cf, refused |-> FALSE, order |-> arrived, res |-> res,
                                s0 |-> Origin(cf, disk, inp), hi |-> LastOf(inp, cf)])
         /\ pc' = "idle" /\ UNCHANGED <<inp, cf, flying, arrived, res>>
Next == (\E c \in Palette(disk) : Begin(c)) \/ Refuse \/ Submit \/ (\E p \in flying : Collect(p)) \/ Write

\* --- properties -------------------------------------------------------------------
\* C18: while collecting, a place holds its own result or nothing; afterwards every glacier place holds it
Placement == \A p \in DOMAIN res : p \in Glacier(inp, cf) /\ res[p].cell = Source(inp, cf, p)
Complete  == \A n \in 1..Len(log) : ~log[n].refused =>
                /\ DOMAIN log[n].res = Glacier(inp, log[n].cf)
                /\ \A p, q \in DOMAIN log[n].res : p # q => log[n].res[p] # log[n].res[q]
\* C18: the order in which results arrive does not matter
Confluent == \A m, n \in 1..Len(log) : (log[m].cf = log[n].cf /\ ~log[m].refused /\ ~log[n].refused /\ log[m].s0 = log[n].s0) => log[m].res = log[n].res
\* C19: a restarted run continues the lineage: it computes what the run without the stop computes
Continues == \A n \in 1..Len(log) : (~log[n].refused /\ log[n].cf.restart) =>
                \E m \in 1..(n-1) : ~log[m].refused /\ log[m].hi = log[n].cf.start /\ log[m].s0 = log[n].s0
\* C19, C20: two runs of one lineage never leave out or repeat a time step
Gapless == \A n \in 1..Len(log) : (~log[n].refused /\ log[n].cf.restart /\ log[n].cf.dt = inp.dt) =>
                ~\E t \in Range(inp.times) : log[n].cf.start < t /\ t <= log[n].hi /\ t \notin Stamps(inp, log[n].cf)
\* C22: a refused run changes nothing on the disk
Untouched == [][pc = "refuse" => disk' = disk]_vars
=============================================================================
