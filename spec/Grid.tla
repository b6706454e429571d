-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The column as an object: what its operations change, and what is read    *)
(* from it.  An object is [c, m] (column and surface memory, see Layers).    *)
(* An operation is [op, n, what, at, x]: n a layer, what a property, at a     *)
(* list of layers, x a list of values.  Apply gives the allowed objects       *)
(* after it: each operation changes what it names and nothing else, and       *)
(* everything read from an object follows from its present layers alone.      *)
(***************************************************************************)
EXTENDS Remesh, Snow, FiniteSets

Field == [temperature |-> "T", height |-> "h", liquid_water_content |-> "w", ice_fraction |-> "i", refreeze |-> "r"]
Properties == DOMAIN Field
Put(l, what, x) == [l EXCEPT ![Field[what]] = x]
Without(c, at) == Now([j \in 1..Cardinality({n \in 1..Len(c) : n \notin at}) |->
                        c[CHOOSE n \in 1..Len(c) : n \notin at /\ Cardinality({q \in 1..n : q \notin at}) = j]])
Named(s) == {s[i] : i \in 1..Len(s)}
NoSnowYet == [nh |-> Zero, nt |-> Zero, ot |-> Zero]
Remember(m) == IF m = None THEN NoSnowYet ELSE [nh |-> m[1], nt |-> m[2], ot |-> m[3]]
\* layers h, T, w by property, i from the density or given
Built(K, x) == Now([n \in 1..Len(x) |-> [h |-> x[n][1], T |-> x[n][3], w |-> x[n][4], r |-> Zero,
                                         i |-> IF x[n][5] = None THEN IceFraction(K, x[n][2]) ELSE x[n][5]]])

Apply(K, s, o) ==
    CASE o.op = "set"    -> {[s EXCEPT !.c[o.n] = Put(@, o.what, o.x[1])]}
      [] o.op = "all"    -> {[s EXCEPT !.c = Now([n \in 1..Len(s.c) |-> Put(s.c[n], o.what, o.x[n])])]}
      [] o.op = "update" -> {[s EXCEPT !.c[o.n] = [@ EXCEPT !.h = o.x[1], !.T = o.x[2], !.i = o.x[3], !.w = o.x[4]]]}
      [] o.op = "remove" -> {[s EXCEPT !.c = IF o.what = "list" THEN Without(@, Named(o.at)) ELSE Tail(@)]}   \* none named: the first
      [] o.op = "merge"  -> {[s EXCEPT !.c = MergeAt(@, o.n)]}
      [] o.op = "split"  -> {[s EXCEPT !.c = SplitAt(@, o.n)]}
      [] o.op = "melt"   -> {[s EXCEPT !.c = SubSeq(@, 1, o.n - 1) \o q.col, !.m = IF o.n = 1 THEN [@ EXCEPT !.nh = @ (-) o.x[1]] ELSE @] :
                              q \in Melt(K, SubSeq(s.c, o.n, Len(s.c)), o.x[1], Zero)}
      [] o.op = "snow"   -> {[c |-> AddSnow(K, s.c, o.x[1], o.x[2], o.x[3], o.x[4]), m |-> m] : m \in Tracked(K, s.m, o.x[1], o.x[5])}
      [] o.op = "age"    -> {[s EXCEPT !.m = Age(@, o.x[1])]}
      [] o.op = "fresh"  -> {[s EXCEPT !.m = NewSnow(@, o.x[1])]}
      [] o.op = "depth"  -> {[s EXCEPT !.m.nh = o.x[1]]}
      [] o.op = "back"   -> {[s EXCEPT !.m.nt = s.m.ot]}
      [] OTHER -> {s}     \* a reading

\* --- what is read ---------------------------------------------------------
Reads == {"density", "specific_heat", "irreducible_water_content", "cold_content", "porosity", "thermal_conductivity", "thermal_diffusivity",
          "height", "temperature", "liquid_water_content", "ice_fraction", "refreeze"}
Of(K, l, what) ==
    CASE what = "density"                   -> Density(K, l)
      [] what = "specific_heat"             -> HeatCap(K, l)
      [] what = "irreducible_water_content" -> Irreducible(l)
      [] what = "cold_content"              -> ColdContent(K, l)
      [] what = "porosity"                  -> Porosity(l)
      [] what = "thermal_conductivity"      -> Conductivity(K, l)
      [] what = "thermal_diffusivity"       -> Diffusivity(K, l)
      [] OTHER                              -> l[Field[what]]
Above(c, n)  == RSum([j \in 1..(n-1) |-> c[j].h])
DepthOf(c, n) == Above(c, n) (+) (c[n].h (/) Two)     \* of a layer: of its middle
SnowHeights(K, c) == [n \in 1..NSnow(K, c) |-> c[n].h]
IceHeights(K, c)  == LET s == SelectSeq(c, LAMBDA l : ~IsSnow(K, l)) IN [n \in 1..Len(s) |-> s[n].h]
\* no layer within rounding of the boundary between snow and ice
Clear(K, c) == \A n \in 1..Len(c) : ~Near(K, Density(K, c[n]), K.snow_ice_threshold)
=============================================================================
