---------------------------- MODULE ConvertTrace ----------------------------
(***************************************************************************)
(* Judges recorded conversions of a tile.                                  *)
(*  kind "bands": f[direction][type] is "absent" or the matrix of factors  *)
(*     (1/32), out the bands written (1/32768), names their descriptions.  *)
(*  kind "max": bands of the combined product read from its file, out the  *)
(*     bands of the maximum product.                                       *)
(*  g, og: rows, columns and georeference expected and written, the latter *)
(*     in 1/1000 of a cell relative to the expected one.                   *)
(***************************************************************************)
EXTENDS ConvertDefs, TraceRec

Near(x, y) == x - y <= 5 /\ y - x <= 5
Registered(r) == /\ Near(r.og.x0, 0) /\ Near(r.og.y0, 0)
                 /\ Near(r.og.pw, 1000) /\ Near(r.og.ph, 1000)
                 /\ r.og.skew = 0 /\ r.og.wgs84 = 1
Shape(m, g) == Len(m) = g.nr /\ \A i \in 1..g.nr : Len(m[i]) = g.nc
Factor(x, i, j) == IF x.absent = 1 THEN Absent ELSE x.v[i][j]

BandsOK(r) ==
    \A d \in 1..8 : \A i \in 1..r.g.nr : \A j \in 1..r.g.nc :
        r.out[d][i][j] = Combine3(Factor(r.f[d].shielding, i, j),
                                  Factor(r.f[d].terrain, i, j),
                                  Factor(r.f[d].topographic, i, j))

Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    IF r.kind = "bands" THEN
        IF Len(r.out) # 8 THEN {"EightBands"} ELSE
        IF \E d \in 1..8 : ~Shape(r.out[d], r.g) THEN {"ShapeOfBands"} ELSE
        Cl("CombinedProduct", BandsOK(r))
        \cup Cl("BandDescriptions", r.names = Names8)
        \cup Cl("Registered", Registered(r))
        \cup Cl("MissingValueDeclared", r.nodata)
    ELSE
        IF Len(r.out) # 1 THEN {"SingleBand"} ELSE
        IF ~Shape(r.out[1], r.g) THEN {"ShapeOfMaximum"} ELSE
        Cl("MaximumOfPresent",
           \A i \in 1..r.g.nr, j \in 1..r.g.nc :
               IsMax(r.out[1][i][j], {r.bands[d][i][j] : d \in 1..Len(r.bands)}))
        \cup Cl("GeoreferenceOfCombined", Registered(r))
        \cup Cl("MissingValueDeclared", r.nodata)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
