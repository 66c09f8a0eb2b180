----------------------------- MODULE TilingDefs -----------------------------
(***************************************************************************)
(* Division of a raster of n cells along one axis into tiles of s cells,   *)
(* each with a buffer of b cells.  Limits are half open: [lo, hi).         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Parts(n, s)      == (n + s - 1) \div s
Lo(i, n, s)      == i * s
Hi(i, n, s)      == Min((i + 1) * s, n)
BLo(i, n, s, b)  == Max(0, i * s - b)
BHi(i, n, s, b)  == Min((i + 1) * s + b, n)

\* the buffered interval of an own interval <<lo, hi>>
Buffered(lo, hi, n, b) == <<Max(0, lo - b), Min(hi + b, n)>>

OwnTiles(W, H, sx, sy) ==
    { <<Lo(i, W, sx), Hi(i, W, sx), Lo(j, H, sy), Hi(j, H, sy)>> :
        i \in 0..(Parts(W, sx) - 1), j \in 0..(Parts(H, sy) - 1) }
=============================================================================
