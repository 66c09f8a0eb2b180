--------------------------- MODULE RasterizeTrace ---------------------------
(***************************************************************************)
(* Judges rasters written by rasterize and rasterize.py.  A record:        *)
(*   W, H, elev  size and values of the elevation raster                   *)
(*   fs      polygons of the layer (rings, cat)                            *)
(*   out     the output: same, 1 if it has the projection and cells of the *)
(*           elevation raster; x, y, w, h, its place in it, in cells;      *)
(*           nodata, what it declares; v its values                        *)
(*   mask    rings of the crop mask, or <<>>; then also crop, the cropped  *)
(*           output, and topo, the cropped elevation, the same way         *)
(***************************************************************************)
EXTENDS RasterizeDefs, TraceRec

MatOK(o) == Len(o.v) = o.h /\ \A i \in 1..Len(o.v) : Len(o.v[i]) = o.w
Cell(o) == (0..(o.h - 1)) \X (0..(o.w - 1))
\* what a cell at p of the cropped outputs may have
Masked(m, p, codes) == IF Inside(m, p) THEN codes ELSE IF Outside(m, p) THEN {0} ELSE codes \cup {0}
Elev(r, i, j) == IF i \in 0..(r.H - 1) /\ j \in 0..(r.W - 1) THEN {r.elev[i + 1][j + 1]} ELSE {0}
Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    LET grid == IF r.mask = <<>> THEN <<0, 0, r.W, r.H>> ELSE <<r.topo.x, r.topo.y, r.topo.w, r.topo.h>> IN
    Cl("OnElevationGrid", r.out.same = 1 /\ MatOK(r.out) /\ <<r.out.x, r.out.y, r.out.w, r.out.h>> = grid)
    \cup Cl("ZeroIsNodata", r.out.nodata = 0)
    \cup Cl("CodeAtCentre", MatOK(r.out) /\ \A c \in Cell(r.out) : 
                r.out.v[c[1] + 1][c[2] + 1] \in Codes(r.fs, Centre(c[1] + r.out.y, c[2] + r.out.x)))
    \cup (IF r.mask = <<>> THEN {} ELSE
          Cl("CropOnGrid", r.crop.same = 1 /\ r.topo.same = 1 /\ MatOK(r.crop) /\ MatOK(r.topo))
          \cup Cl("CropCoversMask", \A c \in (0..(r.H - 1)) \X (0..(r.W - 1)) :
                Inside(r.mask, Centre(c[1], c[2])) =>
                    /\ r.crop.x <= c[2] /\ c[2] < r.crop.x + r.crop.w
                    /\ r.crop.y <= c[1] /\ c[1] < r.crop.y + r.crop.h)
          \cup Cl("CroppedCode", MatOK(r.crop) => \A c \in Cell(r.crop) :
                LET p == Centre(c[1] + r.crop.y, c[2] + r.crop.x) IN
                r.crop.v[c[1] + 1][c[2] + 1] \in Masked(r.mask, p, Codes(r.fs, p)))
          \cup Cl("CroppedElevation", MatOK(r.topo) => \A c \in Cell(r.topo) :
                LET i == c[1] + r.topo.y
                    j == c[2] + r.topo.x
                IN r.topo.v[c[1] + 1][c[2] + 1] \in Masked(r.mask, Centre(i, j), Elev(r, i, j))))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
