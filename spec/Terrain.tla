------------------------------ MODULE Terrain -------------------------------
(***************************************************************************)
(* The upwind average of a tile, cell by cell.  win is the set of cells    *)
(* averaged for the cell treated last.                                     *)
(***************************************************************************)
EXTENDS TerrainDefs

CONSTANTS MaxDim, MaxAvg, MaxLag

VARIABLES rows, cols, avg, lag, dir, pos, win
vars == <<rows, cols, avg, lag, dir, pos, win>>

Init == /\ rows \in 1..MaxDim /\ cols \in 1..MaxDim
        /\ avg \in 0..MaxAvg /\ lag \in 0..MaxLag
        /\ dir \in Directions
        /\ pos = -1 /\ win = {}

Cell == <<pos \div cols, pos % cols>>
Step == /\ pos + 1 < rows * cols
        /\ pos' = pos + 1
        /\ win' = Window(dir, (pos + 1) \div cols, (pos + 1) % cols, rows, cols, avg, lag)
        /\ UNCHANGED <<rows, cols, avg, lag, dir>>
Next == Step
Spec == Init /\ [][Next]_vars

Inside(x) == x[1] >= 0 /\ x[1] < rows /\ x[2] >= 0 /\ x[2] < cols
InTile == pos >= 0 => \A x \in win : Inside(x)
\* strictly upwind: never the cell itself, never a downwind or lateral cell
Upwind == pos >= 0 => \A x \in win :
             /\ (x[1] - Cell[1]) * DR(dir) >= (IF DR(dir) = 0 THEN 0 ELSE lag + 1)
             /\ (x[2] - Cell[2]) * DC(dir) >= (IF DC(dir) = 0 THEN 0 ELSE lag + 1)
             /\ (DR(dir) = 0 => x[1] = Cell[1]) /\ (DC(dir) = 0 => x[2] = Cell[2])
Size == pos >= 0 => Cardinality(win) <= avg
\* the window is cut only by the edge of the raster
Full == pos >= 0 =>
          LET far == <<Cell[1] + (lag + avg) * DR(dir), Cell[2] + (lag + avg) * DC(dir)>>
          IN Inside(far) => Cardinality(win) = avg
\* turning the raster by a quarter turns the window with it
Rot(x) == <<x[2], rows - 1 - x[1]>>
RotDir == [n |-> "e", e |-> "s", s |-> "w", w |-> "n", ne |-> "se", se |-> "sw", sw |-> "nw", nw |-> "ne"]
Equivariant ==
    pos >= 0 => LET c2 == Rot(Cell) IN
        Window(RotDir[dir], c2[1], c2[2], cols, rows, avg, lag) = {Rot(x) : x \in win}
\* the initial multiplier decreases with roughness
Monotone == \A z \in {400, 2000, 20000, 200000, 1000000} : MzInit(z) > MzInit(2 * z)
\* reference points of the formula (computed independently)
RefPoints == /\ FAbs(MzInit(2000000) - 680807) <= 5
             /\ FAbs(MzInit(20000) - 887048) <= 5
             /\ FAbs(MzInit(2000) - 1104773) <= 5
=============================================================================
