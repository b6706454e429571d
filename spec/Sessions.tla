------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* A session: a sequence of model runs over one input, as orchestrated by    *)
(* the main program.  Times are minutes, cells are <<row, column>> from 1.   *)
(*                                                                          *)
(* inp: times (in the order they are stored), ny, nx, mask (rows of 0/1),    *)
(*      bad (undefined values: [y, x, t, static], t a time or static),       *)
(*      present                                                              *)
(* cf : start, end, restart, tile (<<>> or <<y0, y1, x0, x1>>, as the Python *)
(*      slices y0:y1, x0:x1), dt (minutes)                                   *)
(* disk: function from stamp (minutes) to the state saved there: the start   *)
(*      s0 of the uninterrupted run it belongs to, and its region.           *)
(*                                                                          *)
(* What one cell computes is left uninterpreted: the result of a cell is     *)
(* named by its lineage [cell, s0, hi]: the cell's own forcing from s0 to hi *)
(* starting from the initial column.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NoTile == <<>>
RMin2(a, b) == IF a < b THEN a ELSE b
Rows(inp, cf) == IF cf.tile = NoTile THEN [n \in 1..inp.ny |-> n]
                 ELSE LET a == RMin2(cf.tile[1], inp.ny) b == RMin2(cf.tile[2], inp.ny) IN [n \in 1..(IF b > a THEN b - a ELSE 0) |-> a + n]
Cols(inp, cf) == IF cf.tile = NoTile THEN [n \in 1..inp.nx |-> n]
                 ELSE LET a == RMin2(cf.tile[3], inp.nx) b == RMin2(cf.tile[4], inp.nx) IN [n \in 1..(IF b > a THEN b - a ELSE 0) |-> a + n]
\* first and last time that belong to the run
From(cf)      == IF cf.restart THEN cf.start + cf.dt ELSE cf.start
Stamps(inp, cf) == {t \in Range(inp.times) : From(cf) <= t /\ t <= cf.end}
Steps(inp, cf)  == SetToSortSeq(Stamps(inp, cf), LAMBDA a, b : a < b)
\* the glacier cells of the region, as places in the result
Glacier(inp, cf) == LET R == Rows(inp, cf) C == Cols(inp, cf) IN
    {p \in (1..Len(R)) \X (1..Len(C)) : inp.mask[R[p[1]]][C[p[2]]] = 1}
Source(inp, cf, p) == <<Rows(inp, cf)[p[1]], Cols(inp, cf)[p[2]]>>

\* --- when a run is refused -------------------------------------------------------
Lo(inp) == Min(Range(inp.times))
Hi(inp) == Max(Range(inp.times))
NoInput(inp)        == ~inp.present
NoOverlap(inp, cf)  == cf.start > Hi(inp) \/ cf.end < Lo(inp)
NoState(inp, cf, disk) == cf.restart /\ (cf.start \notin DOMAIN disk
                          \/ ~(Range(Rows(inp, cf)) \subseteq Range(disk[cf.start].region[1]) /\ Range(Cols(inp, cf)) \subseteq Range(disk[cf.start].region[2])))
NothingLeft(inp, cf) == Stamps(inp, cf) = {}
Undefined(inp, cf)  == \E p \in Glacier(inp, cf) : \E n \in 1..Len(inp.bad) :
                          LET b == inp.bad[n] IN <<b.y, b.x>> = Source(inp, cf, p) /\ (b.static \/ b.t \in Stamps(inp, cf))
Refused(inp, cf, disk) == NoInput(inp) \/ NoState(inp, cf, disk) \/ NoOverlap(inp, cf) \/ NothingLeft(inp, cf) \/ Undefined(inp, cf)
Beyond(inp, cf)     == cf.start < Lo(inp) \/ cf.end > Hi(inp)

\* --- what a run produces -----------------------------------------------------------
LastOf(inp, cf)      == Max(Stamps(inp, cf))
Origin(cf, disk, inp) == IF cf.restart THEN disk[cf.start].s0 ELSE Min(Stamps(inp, cf))
Lineage(inp, cf, disk, p) == [cell |-> Source(inp, cf, p), s0 |-> Origin(cf, disk, inp), hi |-> LastOf(inp, cf)]
Saved(inp, cf, disk) == [s0 |-> Origin(cf, disk, inp), region |-> <<Rows(inp, cf), Cols(inp, cf)>>]
Put(f, a, v) == [d \in DOMAIN f \cup {a} |-> IF d = a THEN v ELSE f[d]]
=============================================================================
