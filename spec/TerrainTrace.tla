---------------------------- MODULE TerrainTrace ----------------------------
(***************************************************************************)
(* Judges the terrain computations of the real code.                       *)
(* kind "convo": dir, avg, lag, v (matrix of integers), out (1/1000 unit), *)
(*    same = 1 if the input array was left as it was                       *)
(* kind "class": tab (pairs class, 10^-6 m roughness), v (classes),        *)
(*    out (10^-6; 0 for no multiplier)                                     *)
(* kind "tile": tab, v (class per cell of the tile), g (mean cell size,    *)
(*    10^-2 m), own = <<c0, c1, r0, r1>> the part without buffer, outs     *)
(*    (a function of the direction; 10^-6; NA where missing), files        *)
(***************************************************************************)
EXTENDS TerrainDefs, TraceRec

NA == -2000000000

MatOK(m, nr, nc) == Len(m) = nr /\ \A q \in 1..nr : Len(m[q]) = nc

ConvoClauses(r) ==
    LET nr == Len(r.v)
        nc == Len(r.v[1])
    IN IF ~MatOK(r.out, nr, nc) THEN {"ShapeOfResult"} ELSE
       Cl("MeanOfUpwindCells",
          \A i \in Judged(r, "ri", nr), j \in Judged(r, "rj", nc) :
             LET a == Average(r.v, r.dir, i, j, nr, nc, r.avg, r.lag)
             IN /\ r.out[i + 1][j + 1] # NA
                /\ FAbs(r.out[i + 1][j + 1] * a[2] - 1000 * a[1]) <= 2 * a[2])
       \cup Cl("InputUnchanged", r.same = 1)

Known(tab, c) == \E q \in 1..Len(tab) : tab[q][1] = c
\* a later line of the table for the same class replaces an earlier one
Rough(tab, c) == LET q == CHOOSE q \in 1..Len(tab) :
                            tab[q][1] = c /\ \A p \in (q + 1)..Len(tab) : tab[p][1] # c
                 IN tab[q][2]
MzOf(tab) == [c \in {tab[q][1] : q \in 1..Len(tab)} |-> MzInit(Rough(tab, c))]

ClassClauses(r) ==
    LET mz == MzOf(r.tab)
        nr == Len(r.v)
        nc == Len(r.v[1])
    IN IF ~MatOK(r.out, nr, nc) THEN {"ShapeOfResult"} ELSE
       Cl("LogLawOfClass",
          \A i \in 1..nr, j \in 1..nc :
             r.v[i][j] \in DOMAIN mz => FAbs(r.out[i][j] - mz[r.v[i][j]]) <= 8)
       \cup Cl("NoMultiplierForOtherClass",
          \A i \in 1..nr, j \in 1..nc :
             r.v[i][j] \notin DOMAIN mz => r.out[i][j] = 0)

\* widths admissible when the mean cell size is known to 1/2000
Gs(g) == {g - 1 - g \div 2000, g, g + 1 + g \div 2000}

TileClauses(r) ==
    LET mz == MzOf(r.tab)
        nr == Len(r.v)
        nc == Len(r.v[1])
        c0 == r.own[1]
        r0 == r.own[3]
        oc == r.own[2] - c0
        orr == r.own[4] - r0
        some == \E i \in 1..nr, j \in 1..nc : r.v[i][j] \in DOMAIN mz
        \* 10^-5 units, 1 where there is no class
        init == [i \in 1..nr |-> [j \in 1..nc |->
                   IF r.v[i][j] \in DOMAIN mz THEN mz[r.v[i][j]] ELSE 1000000]]
        One(d) ==
          IF d \notin DOMAIN r.outs THEN Cl("AllDirectionsWritten", ~some) ELSE
          LET o == r.outs[d] IN
          IF ~MatOK(o, orr, oc) THEN {"ShapeWithoutBuffer"} ELSE
          Cl("MissingWhereNoClass",
             \A i \in 1..orr, j \in 1..oc :
                (o[i][j] = NA) <=> (r.v[r0 + i][c0 + j] \notin DOMAIN mz))
          \cup Cl("UpwindAverageOfTile",
             \E avg \in {AvgWidth(d, g) : g \in Gs(r.g)}, lag \in {LagWidth(d, g) : g \in Gs(r.g)} :
                \A i \in 1..orr, j \in 1..oc :
                   o[i][j] # NA =>
                     LET a == Average(init, d, r0 + i - 1, c0 + j - 1, nr, nc, avg, lag)
                     IN FAbs(o[i][j] - a[1] \div a[2]) <= 10)
    IN UNION {One(d) : d \in Directions}
       \cup Cl("OnlyTerrainFilesAdded", r.extra = 0)

\* C13 judges the missing cells and classes of tiles too
Keep(r, cs) == IF r.prop = "C13" THEN cs \cap
                   {"MissingWhereNoClass", "LogLawOfClass", "NoMultiplierForOtherClass",
                    "AllDirectionsWritten", "ShapeOfResult", "ShapeWithoutBuffer", "UpwindAverageOfTile"}
               ELSE cs
Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"}
    ELSE CASE r.kind = "convo" -> ConvoClauses(r)
           [] r.kind = "class" -> ClassClauses(r)
           [] r.kind = "tile"  -> Keep(r, TileClauses(r))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
