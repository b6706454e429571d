------------------------------ MODULE StakesGen ------------------------------
(***************************************************************************)
(* Random evaluations (TLC -simulate): a grid anywhere on the globe, regular  *)
(* (lat, lon) or curvilinear (WRF), glacier cells, and stakes put one by one  *)
(* on a cell, between cells, or beyond the grid; measurement times on and off *)
(* the run's times.  Also checks the specification of "nearest" itself.       *)
(***************************************************************************)
EXTENDS Stakes, Json, IOUtils, TLC
G == JsonDeserialize(IOEnv.GENFILE)     \* stakes: how many at most; nt
VARIABLES grid, stakes, phase
vars == <<grid, stakes, phase>>
Million == 1000000
Rolls(n) == <<>> \o [j \in 1..n |-> RandomElement(0..(Million-1))]
U(x, lo, hi) == R(lo) (+) ((R(hi) (-) R(lo)) (.) (RI(x) (/) RI(Million)))
Pick(x, s) == s[1 + (x % Len(s))]
Lats == <<"46.8", "-54.2", "79.3", "0.02", "30.4", "83.5", "-77.7">>
Lons == <<"10.75", "179.98", "-179.97", "0.0", "-67.3">>
Steps == <<"0.25", "0.01", "0.003", "-0.02">>
GInit == grid = <<>> /\ stakes = <<>> /\ phase = "grid"
DrawGrid ==
    /\ phase = "grid"
    /\ \E r \in {Rolls(40)} :
         LET ny == 1 + (r[1] % 3)  nx == 1 + (r[2] % 3)  wrf == r[3] % 3 = 0
             la == R(Pick(r[4], Lats))  lo == R(Pick(r[5], Lons))
             dy == R(Pick(r[6], Steps))  dx == RAbs(R(Pick(r[7], Steps)))
             skew == IF wrf THEN U(r[8], "-0.4", "0.4") ELSE Zero
         IN grid' = [ny |-> ny, nx |-> nx, wrf |-> wrf,
                lat |-> [y \in 1..ny |-> [x \in 1..nx |-> (la (+) (dy (.) RI(y))) (+) ((skew (.) dy) (.) RI(x))]],
                lon |-> [y \in 1..ny |-> [x \in 1..nx |-> (lo (+) (dx (.) RI(x))) (-) ((skew (.) dx) (.) RI(y))]],
                mask |-> [y \in 1..ny |-> [x \in 1..nx |-> IF y = 1 /\ x = 1 THEN 1 ELSE IF r[10 + 3*y + x] % 5 = 0 THEN 0 ELSE 1]],
                when |-> <<2>> \o SelectSeq(<<0, 1, 3, 4, 5, 6, 7>>, LAMBDA h : r[30 + h] % 3 # 0),
                obs |-> Pick(r[38], <<"mb", "snowheight">>), dy |-> dy, dx |-> dx]
    /\ phase' = "stakes" /\ UNCHANGED stakes
AddStake ==
    /\ phase = "stakes" /\ Len(stakes) < G.stakes
    /\ \E r \in {Rolls(18)} :
         LET y == 1 + (r[1] % grid.ny)  x == 1 + (r[2] % grid.nx)
             s == CASE r[3] % 4 = 0 -> <<Zero, Zero>>
                    [] r[3] % 4 = 1 -> <<U(r[4], "-0.6", "0.6"), U(r[5], "-0.6", "0.6")>>
                    [] r[3] % 4 = 2 -> <<U(r[4], "-0.52", "-0.48"), U(r[5], "0.48", "0.52")>>
                    [] OTHER -> <<U(r[4], "-5", "5"), U(r[5], "-5", "5")>>
         IN stakes' = Append(stakes, [lat |-> grid.lat[y][x] (+) (s[1] (.) grid.dy), lon |-> grid.lon[y][x] (+) (s[2] (.) grid.dx),
                        obs |-> [m \in 1..Len(grid.when) |-> IF r[6 + m] % 5 = 0 THEN <<>> ELSE U(r[6 + m], "-3", "4")]])
    /\ UNCHANGED <<grid, phase>>
Done == /\ phase = "stakes" /\ Len(stakes) = G.stakes
        /\ PrintT("STK " \o ToJson([grid |-> grid, stakes |-> stakes])) /\ phase' = "done" /\ UNCHANGED <<grid, stakes>>
GSpec == GInit /\ [][DrawGrid \/ AddStake \/ Done]_vars
\* --- the specification itself: a stake on a cell belongs to it; the nearest cell is nearest on either side of the date line
OnCell == grid # <<>> => \A y \in 1..grid.ny, x \in 1..grid.nx : <<y, x>> \in NearCells(grid.lat, grid.lon, grid.lat[y][x], grid.lon[y][x])
DateLine == grid # <<>> => \A i \in 1..Len(stakes) :
    NearCells(grid.lat, grid.lon, stakes[i].lat, stakes[i].lon) \cap NearCells(grid.lat, grid.lon, stakes[i].lat, stakes[i].lon (+) RI(360)) # {}
=============================================================================
