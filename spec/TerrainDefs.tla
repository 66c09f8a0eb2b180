---------------------------- MODULE TerrainDefs -----------------------------
(***************************************************************************)
(* The terrain multiplier: initial values per land-cover class, and their  *)
(* upwind average for a wind direction.  Cells are <<row, column>>, from 0 *)
(* at the north-west corner; a direction is where the wind comes from.     *)
(***************************************************************************)
EXTENDS FixMath, FiniteSets

Directions == {"n", "s", "e", "w", "ne", "nw", "se", "sw"}
Diagonal(d) == d \in {"ne", "nw", "se", "sw"}

\* one step upwind
DR(d) == CASE d \in {"n", "ne", "nw"} -> -1 [] d \in {"s", "se", "sw"} -> 1 [] OTHER -> 0
DC(d) == CASE d \in {"w", "nw", "sw"} -> -1 [] d \in {"e", "ne", "se"} -> 1 [] OTHER -> 0

\* distances (in steps) of the cells averaged for a cell
Steps(d, r, c, rows, cols, avg, lag) ==
    { k \in (lag + 1)..(lag + avg) :
        /\ r + k * DR(d) >= 0 /\ r + k * DR(d) < rows
        /\ c + k * DC(d) >= 0 /\ c + k * DC(d) < cols }
Window(d, r, c, rows, cols, avg, lag) ==
    { <<r + k * DR(d), c + k * DC(d)>> : k \in Steps(d, r, c, rows, cols, avg, lag) }

RECURSIVE USum(_, _, _, _, _)
USum(v, d, r, c, ks) ==
    IF ks = {} THEN 0
    ELSE LET k == CHOOSE x \in ks : TRUE
         IN v[r + k * DR(d) + 1][c + k * DC(d) + 1] + USum(v, d, r, c, ks \ {k})

\* <<sum, count>> of the average of cell (r, c); its own value if no cell counts
Average(v, d, r, c, rows, cols, avg, lag) ==
    LET ks == Steps(d, r, c, rows, cols, avg, lag)
    IN IF ks = {} THEN <<v[r + 1][c + 1], 1>> ELSE <<USum(v, d, r, c, ks), Cardinality(ks)>>

\* 10^6 times the initial terrain multiplier of roughness length z (10^-6 m)
MzInit(z) ==
    LET a == Mul4(Ln6(z), 45, 54) + 3734000
    IN 1076200 - Mul4(Ln6(a), 28, 27)

\* averaging and lag widths, in cells, for a mean cell size of g (10^-2 m)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
AvgWidth(d, g) == IF g > 200000 THEN 0
                  ELSE IF Diagonal(d) THEN 50000 \div ((g * 1414) \div 1000) ELSE RoundDiv(50000, g)
LagWidth(d, g) == IF g > 200000 THEN 0
                  ELSE IF Diagonal(d) THEN 20000 \div ((g * 1414) \div 1000) ELSE RoundDiv(20000, g)
=============================================================================
