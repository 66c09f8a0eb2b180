----------------------------- MODULE TilingTrace ----------------------------
(***************************************************************************)
(* Judges tile grids recorded from the real code.  A record:               *)
(*   prop  the property to judge (C01, C02, C03)                           *)
(*   exc   1 if the code failed                                            *)
(*   W, H  raster size;  sx, sy, bx, by  admissible steps and buffers (more *)
(*         than one where the quotient is within rounding of an integer)   *)
(*   own   limits of the tiles without buffer, buf with it: x1,x2,y1,y2    *)
(*   ext, bext  their coordinate extents, in 1/1000 cell from the corner   *)
(*   lon, lat   coordinates in the names, and nlon, nlat the true corner,  *)
(*              in 1/10000 degree;  names the names                        *)
(***************************************************************************)
EXTENDS TilingDefs, TraceRec

TileSet(ts) == {<<t[1], t[2], t[3], t[4]>> : t \in {ts[q] : q \in 1..Len(ts)}}

C01(r) ==
    Cl("TilesPartitionRaster",
       \E sx \in {r.sx[q] : q \in 1..Len(r.sx)}, sy \in {r.sy[q] : q \in 1..Len(r.sy)} :
            /\ Len(r.own) = Parts(r.W, sx) * Parts(r.H, sy)
            /\ TileSet(r.own) = OwnTiles(r.W, r.H, sx, sy))
    \cup Cl("TileInsideRaster",
            \A q \in 1..Len(r.own) : LET t == r.own[q] IN
               0 <= t[1] /\ t[1] < t[2] /\ t[2] <= r.W /\
               0 <= t[3] /\ t[3] < t[4] /\ t[4] <= r.H)

C02(r) ==
    IF Len(r.own) # Len(r.buf) THEN {"BufferedTileCount"} ELSE
    Cl("BufferOfEveryTileExact",
       \E bx \in {r.bx[q] : q \in 1..Len(r.bx)}, by \in {r.by[q] : q \in 1..Len(r.by)} :
          \A q \in 1..Len(r.own) :
             LET o == r.own[q]
                 b == r.buf[q]
             IN /\ <<b[1], b[2]>> = Buffered(o[1], o[2], r.W, bx)
                /\ <<b[3], b[4]>> = Buffered(o[3], o[4], r.H, by))
    \cup Cl("BufferInsideRaster",
            \A q \in 1..Len(r.buf) : LET t == r.buf[q] IN
               0 <= t[1] /\ t[2] <= r.W /\ 0 <= t[3] /\ t[4] <= r.H)

Abs(x) == IF x < 0 THEN -x ELSE x
\* extents are x_start, y_start, x_end, y_end
ExtOK(e, t) == /\ Abs(e[1] - 1000 * t[1]) <= 1 /\ Abs(e[3] - 1000 * t[2]) <= 1
               /\ Abs(e[2] - 1000 * t[3]) <= 1 /\ Abs(e[4] - 1000 * t[4]) <= 1
\* names hold four decimals, three where the sign takes the place of one
Tol(v, long) == IF v <= long + 1 THEN 11 ELSE 2
C03(r) ==
    LET N == Len(r.own) IN
    IF Len(r.ext) # N \/ Len(r.bext) # N \/ Len(r.names) # N THEN {"TileInfoCount"} ELSE
    Cl("ExtentIsTileLimits", \A q \in 1..N : ExtOK(r.ext[q], r.own[q]))
    \cup Cl("BufferedExtentIsTileLimits", \A q \in 1..N : ExtOK(r.bext[q], r.buf[q]))
    \cup Cl("NamesUnique", Cardinality({r.names[q] : q \in 1..N}) = N)
    \cup Cl("NameIsNorthWestCorner",
            \A q \in 1..N : /\ Abs(r.lon[q] - r.nlon[q]) <= Tol(r.nlon[q], -1000000)
                            /\ Abs(r.lat[q] - r.nlat[q]) <= Tol(r.nlat[q], -100000))

Clauses(r) ==
    IF r.exc = 1 THEN {"RaisesOnValidRaster"}
    ELSE CASE r.prop = "C01" -> C01(r)
           [] r.prop = "C02" -> C02(r)
           [] r.prop = "C03" -> C03(r)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
