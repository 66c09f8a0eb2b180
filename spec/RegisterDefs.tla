---------------------------- MODULE RegisterDefs ----------------------------
(***************************************************************************)
(* Where the cells of the outputs lie.  Positions along an axis are in     *)
(* 1/1000 of an elevation cell from the north-west corner of the raster,   *)
(* growing to the east and to the south; a cell is its index from 0.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Centre(i) == 1000 * i + 500
Tol == 20
Near(a, b) == a - b <= Tol /\ b - a <= Tol
\* the cell whose centre is at p, or -1
CellAt(p) == LET q == (p - 500 + Tol) \div 1000 IN IF p >= 0 /\ Near(p, Centre(q)) THEN q ELSE -1

\* positions of the cells of a raster with a given corner and cell size
Positions(origin, size, n) == [i \in 1..n |-> origin + (i - 1) * size + size \div 2]

\* corner and cell size derived from positions of n >= 2 cells, as GDAL does
SizeOf(p)   == (p[Len(p)] - p[1]) \div (Len(p) - 1)
OriginOf(p) == p[1] - SizeOf(p) \div 2

CellsOf(ps) == [i \in 1..Len(ps) |-> CellAt(ps[i])]
Ascending(c) == \A i \in 1..(Len(c) - 1) : c[i + 1] = c[i] + 1
=============================================================================
