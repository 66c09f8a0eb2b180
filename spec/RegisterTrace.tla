---------------------------- MODULE RegisterTrace ---------------------------
(***************************************************************************)
(* Judges the outputs of whole runs.  A record:                            *)
(*   W, H   size of the elevation raster; cls the land-cover class at each *)
(*          cell; spikes the crests of the hills (a crest and a     *)
(*          ring of half the height)                                       *)
(*   own, buf  limits of the tiles that have elevation, in the order of    *)
(*          the files: x1, x2, y1, y2                                      *)
(*   files  per kind ("terrain_n", ..., "M3_n", "max") and tile: lon, lat  *)
(*          (positions) and v (10^-5)                                      *)
(*   mosaic, mosaicmax  same for the mosaics (per direction, and one)      *)
(* Values depend on the class of a cell alone (terrain, and shielding on   *)
(* level ground) or on the hills next to it (topography), so they tell     *)
(* which elevation cell they were computed for.                            *)
(***************************************************************************)
EXTENDS RegisterDefs, TraceRec

NA == -2000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Dirs == {"n", "s", "e", "w", "ne", "nw", "se", "sw"}
MatOK(m, nr, nc) == Len(m) = nr /\ \A q \in 1..nr : Len(m[q]) = nc

\* layer of a file: cells (row, column) with their values, judged by position
Rows(f) == CellsOf(f.lat)
Cols(f) == CellsOf(f.lon)
OnGrid(r, f) ==
    /\ Len(f.lat) >= 1 /\ Len(f.lon) >= 1
    /\ \A i \in 1..Len(f.lat) : CellAt(f.lat[i]) \in 0..(r.H - 1)
    /\ \A j \in 1..Len(f.lon) : CellAt(f.lon[j]) \in 0..(r.W - 1)
    /\ Ascending(Rows(f)) /\ Ascending(Cols(f))
    /\ MatOK(f.v, Len(f.lat), Len(f.lon))
\* limits of a file on the grid
Limits(f) == <<Cols(f)[1], Cols(f)[1] + Len(f.lon), Rows(f)[1], Rows(f)[1] + Len(f.lat)>>
Own(r, t) == <<r.own[t][1], r.own[t][2], r.own[t][3], r.own[t][4]>>

\* value at a raster cell in a list of files on the grid
At(fs, i, j) ==
    LET k == CHOOSE k \in 1..Len(fs) : LET l == Limits(fs[k]) IN
                 l[1] <= j /\ j < l[2] /\ l[3] <= i /\ i < l[4]
        f == fs[k]
    IN f.v[i - Rows(f)[1] + 1][j - Cols(f)[1] + 1]

Good(r, k) == \* the files of kind k cover the tiles
    /\ k \in DOMAIN r.files
    /\ Len(r.files[k]) = Len(r.own)
    /\ \A t \in 1..Len(r.own) : OnGrid(r, r.files[k][t]) /\ Limits(r.files[k][t]) = Own(r, t)

Inside(l, i, j) == l[1] <= j /\ j < l[2] /\ l[3] <= i /\ i < l[4]
Cells(r) == {c \in (0..(r.H - 1)) \X (0..(r.W - 1)) :
                \E t \in 1..Len(r.own) : Inside(Own(r, t), c[1], c[2])}

\* a value per class, with one representative of each
ClassesOK(r, m, cs) ==
    LET of(c) == r.cls[c[1] + 1][c[2] + 1]
        val(c) == m[c[1] + 1][c[2] + 1]
        classes == {of(c) : c \in cs}
        rep == [k \in classes |-> val(CHOOSE c \in cs : of(c) = k)]
    IN /\ \A c \in cs : val(c) # NA /\ Abs(val(c) - rep[of(c)]) <= 3
       /\ \A a, b \in classes : a # b => Abs(rep[a] - rep[b]) > 30

Layer(r, k) == [i \in 1..r.H |-> [j \in 1..r.W |->
                  IF <<i - 1, j - 1>> \in Cells(r) THEN At(r.files[k], i - 1, j - 1) ELSE NA]]

\* one step along a direction
Step(d) == << IF d \in {"n", "ne", "nw"} THEN -1 ELSE IF d \in {"s", "se", "sw"} THEN 1 ELSE 0,
              IF d \in {"w", "nw", "sw"} THEN -1 ELSE IF d \in {"e", "ne", "se"} THEN 1 ELSE 0 >>
\* within the smoothing of a crest of the buffered tile, or of the cells before
\* and after it on the line of the wind
Hilly(r, c, d) ==
    LET t == CHOOSE t \in 1..Len(r.own) : Inside(Own(r, t), c[1], c[2]) IN
    \E q \in 1..Len(r.spikes) : LET s == r.spikes[q] IN
        /\ Inside(<<r.buf[t][1], r.buf[t][2], r.buf[t][3], r.buf[t][4]>>, s[1], s[2])
        /\ \E k \in {-1, 0, 1} : /\ Abs(s[1] + k * Step(d)[1] - c[1]) <= 1
                                  /\ Abs(s[2] + k * Step(d)[2] - c[2]) <= 1
Mul(a, b) == ((a \div 10) * (b \div 10)) \div 1000      \* 10^-5 units
Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    LET cells == TLCEval(Cells(r))
        kinds == {"terrain_" \o d : d \in Dirs} \cup {"shielding_" \o d : d \in Dirs}
                 \cup {"topographic_" \o d : d \in Dirs}
        conv == {"M3_" \o d : d \in Dirs} \cup {"max"}
        bad == TLCEval({k \in kinds \cup conv : ~Good(r, k)})
        L == TLCEval([k \in (kinds \cup conv) \ bad |-> TLCEval(Layer(r, k))])
        ok(k) == k \notin bad
        nearSpike(c) == \E q \in 1..Len(r.spikes) :
                            Abs(r.spikes[q][1] - c[1]) <= 2 /\ Abs(r.spikes[q][2] - c[2]) <= 2
        level == TLCEval({c \in cells : ~nearSpike(c)})
        M(k, c) == L[k][c[1] + 1][c[2] + 1]
        mos(name, f, k) ==
            IF ~OnGrid(r, f) THEN {name}
            ELSE Cl(name, ok(k) => \A c \in cells :
                    Inside(Limits(f), c[1], c[2]) /\
                    Abs(f.v[c[1] - Rows(f)[1] + 1][c[2] - Cols(f)[1] + 1] - M(k, c)) <= 1)
    IN Cl("OutputsCoverTiles", bad \cap kinds = {})
       \cup Cl("RastersCoverTiles", bad \cap conv = {})
       \cup UNION { Cl("TerrainOfItsCell", ok("terrain_" \o d) => ClassesOK(r, L["terrain_" \o d], cells))
             \cup Cl("ShieldingOfItsCell", ok("shielding_" \o d) => ClassesOK(r, L["shielding_" \o d], level))
             \cup Cl("TopographyOfItsCell", ok("topographic_" \o d) =>
                    \A c \in cells : IF Hilly(r, c, d) THEN M("topographic_" \o d, c) > 100100
                                     ELSE Abs(M("topographic_" \o d, c) - 100000) <= 1)
             \cup Cl("ProductOfItsCell",
                    (ok("M3_" \o d) /\ ok("terrain_" \o d) /\ ok("shielding_" \o d) /\ ok("topographic_" \o d)) =>
                      \A c \in cells : Abs(M("M3_" \o d, c) - Mul(Mul(M("terrain_" \o d, c), M("shielding_" \o d, c)),
                                                                   M("topographic_" \o d, c))) <= 90)
             \cup mos("MosaicOfCombined", r.mosaic[d], "M3_" \o d)
             : d \in Dirs }
       \cup mos("MosaicOfMaximum", r.mosaicmax, "max")
       \cup Cl("MaximumOfItsCell",
              (ok("max") /\ \A d \in Dirs : ok("M3_" \o d)) =>
                 \A c \in cells : \E d \in Dirs : /\ Abs(M("max", c) - M("M3_" \o d, c)) <= 1
                                                  /\ \A e \in Dirs : M("M3_" \o e, c) <= M("max", c) + 1)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
