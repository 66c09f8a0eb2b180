----------------------------- MODULE GridsDefs ------------------------------
(***************************************************************************)
(* Rasters on a common integer lattice.  A grid is a record                *)
(*   [x0, y0, pw, ph, nx, ny]                                              *)
(* with y0 the northern edge and y growing southwards.  Coordinates are    *)
(* doubled where cell centres are needed, to stay in the integers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* twice the coordinate of the centre of column c (row r) of grid g
CX2(g, c) == 2 * g.x0 + g.pw * (2 * c + 1)
CY2(g, r) == 2 * g.y0 + g.ph * (2 * r + 1)

\* columns (rows) of grid g that contain the doubled coordinate; two of them
\* when it is exactly on an edge (either is a nearest cell)
Idx(z2, o, p) ==
    LET d == z2 - 2 * o
        q == d \div (2 * p)
    IN IF d % (2 * p) = 0 THEN {q - 1, q} ELSE {q}
Cols(g, x2) == Idx(x2, g.x0, g.pw)
Rows(g, y2) == Idx(y2, g.y0, g.ph)

Inside(g, c, r) == c >= 0 /\ c < g.nx /\ r >= 0 /\ r < g.ny

\* values a nearest-cell resampling of the matrix v on grid s may give to cell
\* (c, r) of grid g: the value of a cell containing the centre, 0 if outside
Nearest(s, v, g, c, r) ==
    { IF Inside(s, sc, sr) THEN v[sr + 1][sc + 1] ELSE 0 :
        sc \in Cols(s, CX2(g, c)), sr \in Rows(s, CY2(g, r)) }

\* the sub-grid of columns c0..c1-1 and rows r0..r1-1
SubGrid(g, c0, c1, r0, r1) ==
    [x0 |-> g.x0 + c0 * g.pw, y0 |-> g.y0 + r0 * g.ph, pw |-> g.pw,
     ph |-> g.ph, nx |-> c1 - c0, ny |-> r1 - r0]
SubMatrix(v, c0, c1, r0, r1) ==
    [r \in 1..(r1 - r0) |-> [c \in 1..(c1 - c0) |-> v[r0 + r][c0 + c]]]
=============================================================================
