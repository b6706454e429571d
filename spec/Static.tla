-------------------------------- MODULE Static --------------------------------
(***************************************************************************)
(* The static file: terrain of an elevation model, cropped to a window and     *)
(* averaged to a coarser grid if so configured, and the cells within an        *)
(* outline.  A raster is [west, south, res |-> numbers, z |-> rows from south   *)
(* to north, each from west to east]; an undefined elevation is None.          *)
(***************************************************************************)
EXTENDS R64, Integers, Sequences, FiniteSets
Rows(g) == Len(g.z)
Cols(g) == Len(g.z[1])
Lat(g, y) == g.south (+) (g.res (.) (RI(y) (-) R("0.5")))
Lon(g, x) == g.west (+) (g.res (.) (RI(x) (-) R("0.5")))
\* leave out cells at the west, east, south and north
Crop(g, w) == [west |-> g.west (+) (g.res (.) RI(w[1])), south |-> g.south (+) (g.res (.) RI(w[3])), res |-> g.res,
               z |-> [y \in 1..(Rows(g) - w[3] - w[4]) |-> [x \in 1..(Cols(g) - w[1] - w[2]) |-> g.z[y + w[3]][x + w[1]]]]]
Mean(s) == LET d == SelectSeq(s, LAMBDA v : v # None) IN IF d = <<>> THEN None ELSE RSum(d) (/) RI(Len(d))
Coarse(g, k) == [west |-> g.west, south |-> g.south, res |-> g.res (.) RI(k),
                 z |-> [y \in 1..(Rows(g) \div k) |-> [x \in 1..(Cols(g) \div k) |->
                          Mean(<<>> \o [i \in 1..(k*k) |-> g.z[(y-1)*k + 1 + ((i-1) \div k)][(x-1)*k + 1 + ((i-1) % k)]])]]]
Target(g, w, k) == Coarse(Crop(g, w), k)
\* an outline is a set of boxes <<west, south, east, north>>
Inside(boxes, lat, lon) == \E i \in 1..Len(boxes) : boxes[i][1] \prec lon /\ lon \prec boxes[i][3] /\ boxes[i][2] \prec lat /\ lat \prec boxes[i][4]
Glacier(g, boxes, y, x) == g.z[y][x] # None /\ Inside(boxes, Lat(g, y), Lon(g, x))
\* the slope is defined where the four neighbours are
Terrain(g, y, x) == 1 < y /\ y < Rows(g) /\ 1 < x /\ x < Cols(g) /\ g.z[y][x] # None /\ g.z[y-1][x] # None /\ g.z[y+1][x] # None
                    /\ g.z[y][x-1] # None /\ g.z[y][x+1] # None
Rise(a, b, g, scale) == (b (-) a) (/) (RI(2) (.) (g.res (.) scale))
East(g, y, x, s)  == Rise(g.z[y][x-1], g.z[y][x+1], g, s)
North(g, y, x, s) == Rise(g.z[y-1][x], g.z[y+1][x], g, s)
Metres == R("111120")            \* per degree
Degrees(a) == (a (.) R("180")) (/) R("3.141592653589793")
Radians(a) == (a (/) R("180")) (.) R("3.141592653589793")
Hyp(a, b) == RSqrt((a (.) a) (+) (b (.) b))
Slope(g, y, x) == Degrees(RAtan(Hyp(East(g, y, x, Metres), North(g, y, x, Metres))))
\* the slope faces downhill; on level ground anywhere
Faces(g, y, x, deg) ==
    LET e == East(g, y, x, One)  n == North(g, y, x, One)  h == Hyp(e, n)
    IN h \prec R("1e-6") \/ (RClose(RSin(Radians(deg)), RNeg(e) (/) h, Zero, R("1e-6")) /\ RClose(RCos(Radians(deg)), RNeg(n) (/) h, Zero, R("1e-6")))
=============================================================================
