----------------------------- MODULE GridsTrace -----------------------------
(***************************************************************************)
(* Judges recorded cuts (kind "cut") and resamplings (kind "resample").    *)
(*  s, v   source grid and matrix;  g  target grid;  og, ov  what was      *)
(*  written: its grid (in 1/1000 lattice unit for x0, y0, pw, ph) and      *)
(*  values (scaled like v).  A source cell with value AnyValue is declared as   *)
(*  missing; what the target holds there is left open.                     *)
(***************************************************************************)
EXTENDS GridsDefs, TraceRec

AnyValue == -2000000001
Abs(x) == IF x < 0 THEN -x ELSE x
SameGrid(og, g) ==
    /\ og.nx = g.nx /\ og.ny = g.ny
    /\ Abs(og.x0 - 1000 * g.x0) <= 5 /\ Abs(og.y0 - 1000 * g.y0) <= 5
    /\ Abs(og.pw - 1000 * g.pw) <= 2 /\ Abs(og.ph - 1000 * g.ph) <= 2

\* land cover in another projection: qx, qy are the positions of the centres of
\* the target cells in the source raster, in 1/1000 source cell; within tol of
\* an edge either cell may be taken
IdxT(q, tol) == {(q - tol) \div 1000, (q + tol) \div 1000}
NearestAt(r, rr, cc) ==
    { IF Inside(r.s, sc, sr) THEN r.v[sr + 1][sc + 1] ELSE 0 :
        sc \in IdxT(r.qx[rr + 1][cc + 1], 10), sr \in IdxT(r.qy[rr + 1][cc + 1], 10) }

Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    IF ~SameGrid(r.og, r.g) THEN {"GridOfResult"} ELSE
    IF r.proj = 0 THEN {"ProjectionOfResult"} ELSE
    IF Len(r.ov) # Cardinality(Judged(r, "ri", r.g.ny)) \/ \E q \in 1..Len(r.ov) : Len(r.ov[q]) # Cardinality(Judged(r, "rj", r.g.nx))
    THEN {"ShapeOfResult"} ELSE
    Cl(IF r.kind = "cut" THEN "ElevationReproduced" ELSE "ClassOfNearestCell",
       \A p \in 1..Len(r.ov), q \in 1..(IF Len(r.ov) = 0 THEN 0 ELSE Len(r.ov[1])) :
           LET rr == IF Has(r, "ri") THEN r.ri[p] ELSE p - 1
               cc == IF Has(r, "rj") THEN r.rj[q] ELSE q - 1
               near == IF r.kind = "project" THEN NearestAt(r, rr, cc)
                       ELSE Nearest(r.s, r.v, r.g, cc, rr) IN
           r.ov[p][q] \in near \/ AnyValue \in near)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
