--------------------------------- MODULE Plots ---------------------------------
(***************************************************************************)
(* What the plots of a result file must show.  The result files are filled     *)
(* with values computed from their indices, so that every value tells which    *)
(* variable, time, cell and layer it belongs to.  Times are hours since the      *)
(* midnight before the first step.                                            *)
(***************************************************************************)
EXTENDS R64, Integers, Sequences, FiniteSets
Mix(salt, v, t, y, x, l) == (((salt + 7919*t + 104729*y + 299709*x + 5485863*v + 611953*l) % 999983) * 2003) % 999983
Num(h, lo, span) == R(lo) (+) ((R(span) (.) RI(h)) (/) RI(999983))
\* name, long name, unit, lowest value, span
Field == << <<"H", "sensible heat flux", "W m^-2", "-50", "200">>, <<"LE", "latent heat flux", "W m^-2", "-150", "200">>,
            <<"B", "ground heat flux", "W m^-2", "-20", "60">>, <<"SNOWHEIGHT", "snowheight", "m", "0", "3">>,
            <<"surfM", "surface melt", "m w.e.", "0", "0.004">>, <<"TS", "surface temperature", "K", "240", "33">>,
            <<"G", "incoming shortwave radiation", "W m^-2", "0", "900">>, <<"Q", "runoff", "m w.e.", "0", "0.005">>,
            <<"LWout", "outgoing longwave radiation", "W m^-2 ", "-320", "120">>, <<"surfMB", "surface mass balance", "m w.e", "-0.01", "0.02">>,
            <<"MB", "mass balance", "m w.e.", "-0.02", "0.04">>, <<"REFREEZE", "refreezing", "mm w.e.", "0", "0.001">>,
            <<"LWin", "incoming longwave radiation", "W m^-2.", "150", "200">> >>
StampMesh    == {"H", "LE", "B", "SNOWHEIGHT", "surfM", "TS", "G", "Q", "LWout", "surfMB", "MB", "REFREEZE"}
StampContour == {"H", "LE", "B", "SNOWHEIGHT", "surfM", "TS", "G", "LWin", "LWout", "MB", "surfMB", "Q"}
Index(name) == CHOOSE i \in 1..Len(Field) : Field[i][1] = name
Glacier(c, y, x) == Mix(c.salt, 20, 0, y, x, 0) % 6 # 0
Elevation(c, y, x) == Num(Mix(c.salt, 21, 0, y, x, 0), "3000", "1500")
At(c, name, t, y, x) == IF ~Glacier(c, y, x) THEN None ELSE LET f == Field[Index(name)] IN Num(Mix(c.salt, Index(name), t, y, x, 0), f[4], f[5])
\* --- time: the steps are the hours t0 .. t0+nt-1, every c.every hours
Hour(c, t) == c.t0 + (t - 1) * c.every
Steps(c) == 1..c.nt
OfDay(c, d) == {t \in Steps(c) : Hour(c, t) \div 24 = d}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Sorted(S \ {m})
Over(c, name, S, y, x) == IF ~Glacier(c, y, x) THEN None
                          ELSE LET q == Sorted(S) IN RSum([i \in 1..Len(q) |-> At(c, name, q[i], y, x)]) (/) RI(Len(q))
Shown(c, name, y, x) == IF name = "HGT" THEN Elevation(c, y, x)
                        ELSE IF c.mean THEN Over(c, name, OfDay(c, c.when \div 24), y, x)
                        ELSE At(c, name, CHOOSE t \in Steps(c) : Hour(c, t) = c.when, y, x)
\* --- the layers
Layer == << <<"RHO", "LAYER_RHO", "250", "650">>, <<"T", "LAYER_T", "250", "23">>, <<"IF", "LAYER_ICE_FRACTION", "0.2", "0.7">>, <<"REF", "LAYER_REFREEZE", "0", "0.01">>,
            <<"LWC", "LAYER_LWC", "0", "0.05">>, <<"POR", "LAYER_POROSITY", "0", "0.6">> >>
LIndex(v) == CHOOSE i \in 1..Len(Layer) : Layer[i][1] = v
Count(c, t, y, x) == 2 + (Mix(c.salt, 22, t, y, x, 0) % (c.layers - 1))
SnowLayers(c, t, y, x) == 1 + (Mix(c.salt, 24, t, y, x, 0) % Count(c, t, y, x))
Height(c, t, y, x, l) == Num(Mix(c.salt, 23, t, y, x, l), "0.02", "0.2")
OfLayer(c, v, t, y, x, l) == LET f == Layer[LIndex(v)] IN Num(Mix(c.salt, 30 + LIndex(v), t, y, x, l), f[3], f[4])
RECURSIVE Depth(_, _, _, _, _)
Depth(c, t, y, x, l) == IF l = 0 THEN Zero ELSE Depth(c, t, y, x, l-1) (+) Height(c, t, y, x, l)     \* of the bottom of layer l
Snow(c, t, y, x) == Depth(c, t, y, x, SnowLayers(c, t, y, x))
Value(c, v, t, y, x, l) == CASE v = "HEIGHT" -> Height(c, t, y, x, l) [] v = "DEPTH" -> Depth(c, t, y, x, l) [] OTHER -> OfLayer(c, v, t, y, x, l)
\* the boundaries (0: the surface) nearest to a depth
NearestTo(c, t, y, x, d, from) ==
    LET n == Count(c, t, y, x)  gap(l) == RAbs(Depth(c, t, y, x, l) (-) d)
    IN {l \in from..n : \A m \in from..n : gap(l) \preceq gap(m) (+) R("1e-6")}
=============================================================================
