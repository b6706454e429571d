------------------------------ MODULE Remesh ------------------------------
(***************************************************************************)
(* Re-meshing: merging, splitting and the two profile algorithms.           *)
(* LogProfile, AdaptiveProfile, Correct and UpdateGrid return the SET of    *)
(* columns allowed; it has one element unless a comparison is a near tie.   *)
(***************************************************************************)
EXTENDS Layers

Merge2(a, b) ==
    LET H == a.h (+) b.h
        mix(x, y) == ((x (.) a.h) (+) (y (.) b.h)) (/) H
    IN [h |-> H, w |-> mix(a.w, b.w), i |-> mix(a.i, b.i), r |-> a.r,
        T |-> ((a.h (/) H) (.) a.T) (+) ((b.h (/) H) (.) b.T)]
\* merge layers n and n+1
MergeAt(c, n) == SubSeq(c, 1, n-1) \o <<Merge2(c[n], c[n+1])>> \o SubSeq(c, n+2, Len(c))
\* halve layer n into two layers with the same properties
SplitAt(c, n) ==
    LET l == [c[n] EXCEPT !.h = @ (/) Two]
    IN SubSeq(c, 1, n-1) \o <<l, [l EXCEPT !.r = Zero]>> \o SubSeq(c, n+1, Len(c))
Replace(c, n, s) == SubSeq(c, 1, n-1) \o s \o SubSeq(c, n+1, Len(c))

\* Cut layer l so that its upper part has height h0.  Both parts keep the
\* properties of the layer: contents are volumetric.
CutAt(l, h0) == << [l EXCEPT !.h = h0], [l EXCEPT !.h = @ (-) h0, !.r = Zero] >>
SameKind(K, a, b) == IsSnow(K,a) <=> IsSnow(K,b)

(***************************************************************************)
(* Threshold comparisons.  Heights are set to a target and later compared   *)
(* with it again, so ties are the normal case; how a tie that is broken by  *)
(* rounding is decided is left open in three ways (K.ties): as computed,    *)
(* as equality, or as "less".                                               *)
(***************************************************************************)
Geq(K, a, b) == CASE K.ties = "exact" -> b \preceq a
                  [] K.ties = "equal" -> (b (-) Band(K,a,b)) \preceq a
                  [] OTHER            -> (b (+) Band(K,a,b)) \preceq a

\* Give layer n the height m, merging with layers beneath of the same kind.
RECURSIVE Correct1(_, _, _, _)
Correct1(K, c, n, m) ==
    IF n < Len(c) /\ SameKind(K, c[n], c[n+1]) /\ ~Geq(K, c[n].h, m) THEN Correct1(K, MergeAt(c, n), n, m)
    ELSE IF ~Geq(K, m, c[n].h) /\ m \prec c[n].h THEN Replace(c, n, CutAt(c[n], m))
    ELSE c

\* --- logarithmic profile --------------------------------------------------
RECURSIVE LogSnow(_, _, _, _, _)
LogSnow(K, c, n, rest, tgt) ==
    IF n > NSnow(K,c) THEN <<c, tgt>>
    ELSE IF Geq(K, rest, tgt) THEN LogSnow(K, Correct1(K, c, n, tgt), n+1, rest (-) tgt, K.layer_stretching (.) tgt)
    ELSE LogSnow(K, IF n > 1 THEN MergeAt(c, n-1) ELSE c, n+1, rest, tgt)
RECURSIVE LogIce(_, _, _, _, _)
LogIce(K, c, n, rest, tgt) ==
    IF n > Len(c) THEN c
    ELSE IF Geq(K, rest, tgt) THEN LogIce(K, Correct1(K, c, n, tgt), n+1, rest (-) tgt, K.layer_stretching (.) tgt)
    ELSE LogIce(K, IF n > 1 THEN MergeAt(c, n-1) ELSE c, n+1, rest, tgt)
LogProfile1(K, c) ==
    LET p == LogSnow(K, c, 1, SnowHeight(K,c), K.first_layer_height)
        d == p[1]
    IN LogIce(K, d, NSnow(K,d) + 1, Height(d) (-) SnowHeight(K,d), p[2])

\* --- adaptive profile -----------------------------------------------------
RECURSIVE AdaptSnow(_, _, _, _)
AdaptSnow(K, c, n, merges) ==
    IF n >= NSnow(K,c) THEN c
    ELSE LET dT  == RAbs(c[n].T (-) c[n+1].T)
             dR  == RAbs(Density(K,c[n]) (-) Density(K,c[n+1]))
         IN IF /\ RI(merges) \preceq K.merge_max
               /\ Geq(K, K.temperature_threshold_merging, dT)
               /\ Geq(K, K.density_threshold_merging, dR) /\ Geq(K, R("0.1"), c[n].h)
            THEN AdaptSnow(K, MergeAt(c, n), n, merges+1)
            ELSE IF Geq(K, K.minimum_snow_layer_height, c[n].h)
            THEN AdaptSnow(K, Replace(c, n, <<>>), n, merges)
            ELSE AdaptSnow(K, c, n+1, merges)
RECURSIVE AdaptIce(_, _, _)
AdaptIce(K, c, n) ==
    IF n >= Len(c) THEN c
    ELSE IF Geq(K, c[n].h, K.minimum_snow_layer_height) THEN AdaptIce(K, c, n+1)
    ELSE AdaptIce(K, MergeAt(c, n), n)
AdaptiveProfile1(K, c) ==
    LET s == AdaptSnow(K, c, 1, 0)
        m == IF NSnow(K,s) > 1 THEN NSnow(K,s) ELSE 1        \* number of layers above the ice part
        t == IF m = 1 /\ Len(s) > 1 /\ ~Geq(K, s[1].h, K.first_layer_height)
             THEN <<Correct1(K, s, 2, K.first_layer_height), 3>> ELSE <<s, m+1>>
    IN Correct1(K, AdaptIce(K, t[1], t[2]), 1, K.first_layer_height)

Update1(K, c) ==
    LET d == IF K.remesh_method = "log_profile" THEN LogProfile1(K, c)
             ELSE IF K.remesh_method = "adaptive_profile" THEN AdaptiveProfile1(K, c) ELSE c
    IN IF Geq(K, d[1].h, K.minimum_snow_layer_height) THEN d ELSE Tail(d)     \* drop a top layer that is too thin

Ties(K) == {[K EXCEPT !.ties = t] : t \in {"exact", "equal", "less"}}
Correct(K, c, n, m)   == {Correct1(L, c, n, m) : L \in Ties(K)}
LogProfile(K, c)      == {LogProfile1(L, c) : L \in Ties(K)}
AdaptiveProfile(K, c) == {AdaptiveProfile1(L, c) : L \in Ties(K)}
UpdateGrid(K, c)      == {Update1(L, c) : L \in Ties(K)}

(***************************************************************************)
(* Property C01, stated on the column before (c) and after (d).             *)
(* "Discarded snow layers": the loss must be what dropping some snow layers *)
(* no thicker than the minimum explains.                                    *)
(***************************************************************************)
Tol == R("1e-9")
Same(a, b) == RClose(a, b, Tol, R("1e-12"))
Conserved(c, d) == Same(Height(c), Height(d)) /\ Same(Ice(c), Ice(d)) /\ Same(Water(c), Water(d)) /\ Same(HeatSum(c), HeatSum(d))
===========================================================================
