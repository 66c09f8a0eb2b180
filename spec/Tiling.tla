------------------------------- MODULE Tiling -------------------------------
(***************************************************************************)
(* The tile grid of a run: tiles are produced one after the other, column  *)
(* by column.  cover counts how often each cell belongs to a tile (without *)
(* buffer); last is the tile produced last, with its buffered limits.      *)
(***************************************************************************)
EXTENDS TilingDefs, Sequences

CONSTANTS MaxDim, MaxStep, MaxBuf,
          BadRemainder    \* a faulty design, for the sanity of the model

VARIABLES W, H, sx, sy, bx, by, k, cover, last
vars == <<W, H, sx, sy, bx, by, k, cover, last>>

NCols == Parts(W, sx)
NRows == Parts(H, sy)
NTiles == NCols * NRows

Init ==
    /\ W \in 1..MaxDim /\ H \in 1..MaxDim
    /\ sx \in 1..MaxStep /\ sy \in 1..MaxStep
    /\ bx \in 0..MaxBuf /\ by \in 0..MaxBuf
    /\ k = 0
    /\ cover = [c \in (0..W-1) \X (0..H-1) |-> 0]
    /\ last = <<>>

\* limits of the tile recovered from its buffered limits: wrong when the
\* buffer reaches the raster edge although the tile does not
Unbuffer(blo, bhi, n, b) ==
    << IF blo # 0 THEN blo + b ELSE blo, IF bhi # n THEN bhi - b ELSE n >>

Emit ==
    /\ k < NTiles
    /\ LET i == k \div NRows
           j == k % NRows
           bxs == <<BLo(i, W, sx, bx), BHi(i, W, sx, bx)>>
           bys == <<BLo(j, H, sy, by), BHi(j, H, sy, by)>>
           xs == IF BadRemainder THEN Unbuffer(bxs[1], bxs[2], W, bx)
                 ELSE <<Lo(i, W, sx), Hi(i, W, sx)>>
           ys == IF BadRemainder THEN Unbuffer(bys[1], bys[2], H, by)
                 ELSE <<Lo(j, H, sy), Hi(j, H, sy)>>
       IN /\ last' = <<xs, ys, bxs, bys>>
          /\ cover' = [c \in DOMAIN cover |->
                IF c[1] >= xs[1] /\ c[1] < xs[2] /\ c[2] >= ys[1] /\ c[2] < ys[2]
                THEN cover[c] + 1 ELSE cover[c]]
    /\ k' = k + 1
    /\ UNCHANGED <<W, H, sx, sy, bx, by>>

Next == Emit
Spec == Init /\ [][Next]_vars

NoOverlap == \A c \in DOMAIN cover : cover[c] <= 1
Complete  == k = NTiles => \A c \in DOMAIN cover : cover[c] = 1

AxisOK(own, buf, n, b) ==
    /\ 0 <= buf[1] /\ buf[1] <= own[1] /\ own[1] < own[2]
    /\ own[2] <= buf[2] /\ buf[2] <= n
    /\ own[1] - buf[1] = Min(b, own[1])
    /\ buf[2] - own[2] = Min(b, n - own[2])
BufferExact ==
    last # <<>> => AxisOK(last[1], last[3], W, bx) /\ AxisOK(last[2], last[4], H, by)

\* the set form used to judge the real code is the same tiling
SetForm ==
    last # <<>> => <<last[1][1], last[1][2], last[2][1], last[2][2]>> \in OwnTiles(W, H, sx, sy)
Count == Cardinality(OwnTiles(W, H, sx, sy)) = NTiles
\* the north-west corners of the tiles are distinct, so can the names be
CornersDistinct ==
    \A a, b \in OwnTiles(W, H, sx, sy) :
        (a[1] = b[1] /\ a[3] = b[3]) => a = b
=============================================================================
