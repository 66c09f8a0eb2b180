----------------------------- MODULE SeamsDefs ------------------------------
(***************************************************************************)
(* A cell in a tile and in the whole raster.  A tile is a window of the    *)
(* raster, <<x1, x2, y1, y2>> (columns x1..x2-1, rows y1..y2-1).           *)
(***************************************************************************)
EXTENDS ShieldDefs

Max2(a, b) == IF a >= b THEN a ELSE b
\* cells over which the terrain and the shielding multipliers look: upwind of
\* the cell, and one cell around it for the slope
TerrainReach(d, g) == AvgWidth(d, g) + LagWidth(d, g)
ShieldReach(g) == Max2(10000 \div g, 1)

In(w, r, c) == w[1] <= c /\ c < w[2] /\ w[3] <= r /\ r < w[4]
\* the tile reaches that far around the cell, or to the edge of the raster
Covers(w, r, c, rows, cols, reach) ==
    /\ In(w, r, c)
    /\ w[1] <= Max2(0, c - reach) /\ w[3] <= Max2(0, r - reach)
    /\ (w[2] > c + reach \/ w[2] = cols)
    /\ (w[4] > r + reach \/ w[4] = rows)
=============================================================================
