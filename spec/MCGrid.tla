------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Every history of up to three operations on two small objects, with every  *)
(* argument of a palette.                                                    *)
(***************************************************************************)
EXTENDS Grid, Json, IOUtils
K == JsonDeserialize(IOEnv.KFILE)[1]
VARIABLES pair, op, depth
vars == <<pair, op, depth>>
M == INSTANCE GridModel
Lay(h, T, w, i) == [h |-> R(h), T |-> R(T), w |-> R(w), i |-> R(i), r |-> Zero]
Fresh == Lay("0.02", "268.0", "0.0", "0.2")
Old   == Lay("0.1", "273.16", "0.05", "0.6")
Lens  == Lay("0.03", "271.0", "0.02", "0.99")
Glacier == Lay("0.5", "270.0", "0.0", "0.985")
Mem   == [nh |-> R("0.02"), nt |-> R("7200"), ot |-> R("90000")]
O(name, g) == [op |-> name, g |-> g, n |-> 0, what |-> "", at |-> <<>>, x |-> <<>>]
Values == [temperature |-> {R("260"), R("273.16")}, height |-> {R("0.004")}, liquid_water_content |-> {Zero, R("0.7")}, ice_fraction |-> {R("0.23"), One}, refreeze |-> {R("0.001")}]
Ops(g) == LET L == Len(pair[g].c)  Nat1 == 1..L IN
    {[O("set", g) EXCEPT !.n = n, !.what = p[1], !.x = <<p[2]>>] : n \in Nat1, p \in UNION {{w} \X Values[w] : w \in Properties}}
    \cup {[O("all", g) EXCEPT !.what = p[1], !.x = [j \in 1..L |-> p[2]]] : p \in UNION {{w} \X Values[w] : w \in Properties}}
    \cup {[O("update", g) EXCEPT !.n = n, !.x = <<R("0.05"), R("265"), R("0.4"), R("0.01")>>] : n \in Nat1}
    \cup (IF L < 2 THEN {} ELSE {[O("remove", g) EXCEPT !.what = "none"]} \cup {[O("remove", g) EXCEPT !.what = "list", !.at = <<n>>] : n \in Nat1}
                             \cup {[O("merge", g) EXCEPT !.n = n] : n \in 1..(L-1)} \cup {[O("melt", g) EXCEPT !.n = n, !.x = <<R("0.003")>>] : n \in 1..(L-1)})
    \cup (IF L < 3 THEN {} ELSE {[O("remove", g) EXCEPT !.what = "list", !.at = <<L, 1>>]})
    \cup {[O("split", g) EXCEPT !.n = n] : n \in Nat1}
    \cup {[O("snow", g) EXCEPT !.x = <<R(h), R("200"), R("265"), Zero, K.dt>>] : h \in {"0.0005", "0.03"}}
    \cup {[O("age", g) EXCEPT !.x = <<K.dt>>], [O("fresh", g) EXCEPT !.x = <<R("0.1")>>], [O("depth", g) EXCEPT !.x = <<Zero>>], O("back", g), O("read", g)}
Init == /\ pair \in {<<[c |-> a, m |-> Mem], [c |-> <<Glacier>>, m |-> NoSnowYet]>> : a \in {<<Fresh, Old, Glacier>>, <<Lens, Old>>, <<Old, Lens, Fresh, Glacier>>}}
        /\ op = O("start", 0) /\ depth = 0
Next == /\ depth < 2
        /\ \E g \in 1..2 : \E o \in Ops(g) : \E s \in Apply(K, pair[g], o) : pair' = [pair EXCEPT ![g] = s] /\ op' = o
        /\ depth' = depth + 1
Spec == Init /\ [][Next]_vars
Promises == M!WellDefined
Keeps == M!Kept
=============================================================================
