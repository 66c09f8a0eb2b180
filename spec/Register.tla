------------------------------ MODULE Register ------------------------------
(***************************************************************************)
(* From elevation cells to the cells of the outputs, along one axis: a     *)
(* tile is cut with its buffer, computed (every cell keeps a mark of where *)
(* it came from), clipped to its own extent, saved with coordinates, and   *)
(* converted to a raster whose corner and cell size are derived from the   *)
(* coordinates; the mosaic puts the rasters of all tiles side by side.     *)
(* The tiles are worked on in any order.                                   *)
(***************************************************************************)
EXTENDS TilingDefs, RegisterDefs

CONSTANTS MaxN, MaxStep, MaxBuf, Fault

VARIABLES n, step, buf, todo, nc, tif, mosaic
vars == <<n, step, buf, todo, nc, tif, mosaic>>

Init == /\ n \in 1..MaxN /\ step \in 1..MaxStep /\ buf \in 0..MaxBuf
        /\ todo = 0..(Parts(n, step) - 1)
        /\ nc = <<>> /\ tif = <<>> /\ mosaic = [i \in 0..(n - 1) |-> -1]

\* a file is <<positions, marks>>
Tile(t) ==
    LET lo == Lo(t, n, step)
        hi == Hi(t, n, step)
        b == Buffered(lo, hi, n, buf)
        work == [i \in 1..(b[2] - b[1]) |-> b[1] + i - 1]
        off == IF Fault = "assume-full-buffer" THEN buf ELSE lo - b[1]
        own == [i \in 1..(hi - lo) |-> IF off + i \in DOMAIN work THEN work[off + i] ELSE -1]
        west == IF Fault = "buffered-extent" THEN b[1] ELSE lo
        pos == [i \in 1..(hi - lo) |-> IF Fault = "corner" THEN 1000 * (west + i - 1)
                                       ELSE Centre(west + i - 1)]
    IN <<pos, IF Fault = "reversed" THEN [i \in 1..Len(own) |-> own[Len(own) + 1 - i]] ELSE own>>

Work(t) ==
    LET f == Tile(t) IN
    /\ t \in todo
    /\ todo' = todo \ {t}
    /\ nc' = f
    /\ IF Len(f[1]) >= 2
       THEN LET p == Positions(OriginOf(f[1]), SizeOf(f[1]), Len(f[1])) IN
            /\ tif' = <<p, f[2]>>
            /\ mosaic' = [i \in DOMAIN mosaic |->
                  IF \E k \in 1..Len(p) : CellAt(p[k]) = i
                  THEN f[2][CHOOSE k \in 1..Len(p) : CellAt(p[k]) = i] ELSE mosaic[i]]
       ELSE \* the spacing of a single coordinate is not known: a known finding
            /\ tif' = <<>>
            /\ UNCHANGED mosaic
    /\ UNCHANGED <<n, step, buf>>

Next == \E t \in todo : Work(t)
Spec == Init /\ [][Next]_vars

Registered(f) == \A k \in 1..Len(f[1]) : f[2][k] # -1 /\ CellAt(f[1][k]) = f[2][k]
FileRegistered == nc # <<>> => Registered(nc)
RasterRegistered == tif # <<>> => Registered(tif)
MosaicRegistered == \A i \in DOMAIN mosaic : mosaic[i] \in {-1, i}
MosaicComplete ==
    (todo = {} /\ \A t \in 0..(Parts(n, step) - 1) : Hi(t, n, step) - Lo(t, n, step) >= 2) =>
        \A i \in DOMAIN mosaic : mosaic[i] = i
=============================================================================
