------------------------------ MODULE GridModel ------------------------------
(***************************************************************************)
(* What the specification of the column promises of every object, and of      *)
(* every operation on one of two of them.                                    *)
(***************************************************************************)
EXTENDS Grid
CONSTANT K
VARIABLES pair, op
Sane(l) == Zero \prec l.h /\ Zero \prec l.i
Tiny == R("1e-9")
WellDefined == \A g \in 1..Len(pair) : LET c == pair[g].c IN
    /\ Len(c) > 0 /\ \A n \in 1..Len(c) : Sane(c[n]) /\ Zero \prec Density(K, c[n]) /\ Zero \prec HeatCap(K, c[n]) /\ Zero \prec Diffusivity(K, c[n])
    /\ \A n \in 1..Len(c) : LET l == c[n] IN
        /\ RClose((l.i (+) l.w) (+) Porosity(l), One, Tiny, Tiny)
        /\ Zero \preceq Irreducible(l)
        /\ (l.i \preceq One => Irreducible(l) \preceq (R("0.0264") (+) (R("0.0099") (/) l.i)))
        /\ (l.T \preceq K.zero_temperature <=> Zero \preceq ColdContent(K, l))
    /\ NSnow(K, c) + Len(IceHeights(K, c)) = Len(c)
    /\ \A n \in 2..Len(c) : DepthOf(c, n-1) \prec DepthOf(c, n)
    /\ DepthOf(c, Len(c)) \prec Height(c)
    /\ (NSnow(K, c) = Len(c) => RClose(SnowHeight(K, c), Height(c), Tiny, Tiny))
\* what each operation keeps
Alike(a, b) == RClose(a, b, R("1e-9"), R("1e-9"))
Kept == [][\A g \in 1..Len(pair) : LET a == pair[g]  b == pair'[g] IN
    /\ (op'.g # g => a = b)
    /\ (op'.g = g =>
        /\ (op'.op \in {"merge", "split"} => Alike(Height(a.c), Height(b.c)) /\ Alike(Ice(a.c), Ice(b.c)) /\ Alike(Water(a.c), Water(b.c)) /\ Alike(HeatSum(a.c), HeatSum(b.c)))
        /\ (op'.op \in {"merge", "split", "set", "all", "update", "remove", "read"} => a.m = b.m)
        /\ (op'.op \in {"age", "fresh", "depth", "back", "read"} => a.c = b.c)
        /\ (op'.op = "merge" => Len(b.c) = Len(a.c) - 1) /\ (op'.op \in {"split", "snow"} => Len(b.c) = Len(a.c) + 1)
        /\ (op'.op = "melt" => Height(b.c) \preceq (Height(a.c) (+) Tiny))
        /\ (op'.op = "set" => \A n \in 1..Len(a.c) : \A w \in Properties : (n # op'.n \/ w # op'.what) => a.c[n][Field[w]] = b.c[n][Field[w]]))]_<<pair, op>>
=============================================================================
