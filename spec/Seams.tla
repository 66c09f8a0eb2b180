------------------------------- MODULE Seams --------------------------------
(***************************************************************************)
(* A raster is cut in tiles of Step cells, each computed with a buffer of  *)
(* `buf` cells cut at the edge of the raster, and clipped to its own       *)
(* cells.  What is computed for a cell of a tile is described by the       *)
(* cells of the raster it depends on (win) and, for the shielding, by the  *)
(* number of cells taken as outside (out).  Step by step, every tile of    *)
(* every tiling, for terrain and shielding, in every direction.            *)
(***************************************************************************)
EXTENDS SeamsDefs

CONSTANTS MaxRows, MaxCols, MaxStep, MaxAvg, MaxLag, MaxSize, Fault

VARIABLES rows, cols, step, buf, avg, lag, size, dir, t, got
vars == <<rows, cols, step, buf, avg, lag, size, dir, t, got>>

reach == Max2(avg + lag, Max2(size, 1))
NX == (cols + step - 1) \div step
NY == (rows + step - 1) \div step
Own(k) == LET i == k \div NY
              j == k % NY
          IN <<i * step, IF (i + 1) * step < cols THEN (i + 1) * step ELSE cols,
               j * step, IF (j + 1) * step < rows THEN (j + 1) * step ELSE rows>>
B == IF Fault = "own" THEN 0 ELSE buf
Buf(k) == LET o == Own(k) IN
          <<Max2(0, o[1] - B), IF o[2] + B < cols THEN o[2] + B ELSE cols,
            Max2(0, o[3] - B), IF o[4] + B < rows THEN o[4] + B ELSE rows>>

Shift(w, ps) == {<<p[1] + w[3], p[2] + w[1]>> : p \in ps}
TWidth(w) == IF DR(dir) = 0 THEN w[2] - w[1] ELSE w[4] - w[3]
\* the averaging width is reduced in a tile that is too small
Narrow(n) == IF lag > n THEN 0 ELSE IF avg + lag > n THEN n - lag ELSE avg
TAvg(w, o) == Narrow(TWidth(IF Fault = "narrow" THEN o ELSE w))
\* terrain: cells averaged for cell (r, c) of the raster, in a window
TerrainWin(w, o, r, c) ==
    LET x == Shift(w, Window(dir, r - w[3], c - w[1], w[4] - w[3], w[2] - w[1], TAvg(w, o), lag))
    IN IF x = {} THEN {<<r, c>>} ELSE x
\* shielding: cells of the sector in the window, and how many are outside it
ShieldWin(w, r, c) ==
    LET ps == IF size = 0 THEN {<<0, 0>>} ELSE Sector(dir, size)
        in == {p \in ps : In(w, r + p[1], c + p[2])}
    IN [cells |-> {<<r + p[1], c + p[2]>> : p \in in}, out |-> Cardinality(ps) - Cardinality(in)]
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i >= hi THEN hi - 1 ELSE i
\* slope: the cells around it, the outermost repeated beyond the window
SlopeWin(w, r, c) == [p \in (-1..1) \X (-1..1) |-> <<Clamp(r + p[1], w[3], w[4]), Clamp(c + p[2], w[1], w[2])>>]
Value(w, o, r, c) == [terrain |-> TerrainWin(w, o, r, c), shield |-> ShieldWin(w, r, c), slope |-> SlopeWin(w, r, c)]

Init == /\ rows \in 1..MaxRows /\ cols \in 1..MaxCols /\ step \in 1..MaxStep
        /\ avg \in 0..MaxAvg /\ lag \in 0..MaxLag /\ size \in 0..MaxSize
        /\ dir \in Directions
        /\ buf \in {IF Fault = "short" THEN reach - 1 ELSE reach, reach + 1}
        /\ t = 0 /\ got = [c \in {} |-> 0]

\* a tile, its buffer clipped from its results
Compute == /\ t < NX * NY
           /\ t' = t + 1
           /\ LET o == Own(t)
                  w == Buf(t)
                  s == IF Fault = "clip" /\ w[1] > 0 THEN 1 ELSE 0
              IN got' = [c \in {c \in (0..(rows - 1)) \X (0..(cols - 1)) : In(o, c[1], c[2])} |->
                            Value(w, o, c[1], c[2] - s)]
           /\ UNCHANGED <<rows, cols, step, buf, avg, lag, size, dir>>
Spec == Init /\ [][Compute]_vars

Whole == <<0, cols, 0, rows>>
Same == \A c \in DOMAIN got : got[c] = Value(Whole, Whole, c[1], c[2])
\* every cell is covered by the tile it belongs to
Covered == t > 0 => \A c \in DOMAIN got : Covers(Buf(t - 1), c[1], c[2], rows, cols, reach)
=============================================================================
