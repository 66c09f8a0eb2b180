---------------------------- MODULE PreprocTrace ----------------------------
(***************************************************************************)
(* Judges outputs of pre_process.  A record:                               *)
(*   ss     settlements: t, a (list of triangles)                          *)
(*   ps     land-use parcels: id, l (land use), a                          *)
(*   box    bounding box of the crop mask, or <<>>                         *)
(*   wx, wy width of the columns and height of the rows of the grid        *)
(*   out    records written: id, l, t, cat, a, and exact: 1 if the written *)
(*          polygon is exactly the triangles                               *)
(***************************************************************************)
EXTENDS PreprocDefs, TraceRec

ToSet(s) == {s[i] : i \in 1..Len(s)}
Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    LET ss == TLCEval([i \in 1..Len(r.ss) |-> [t |-> r.ss[i].t, a |-> ToSet(r.ss[i].a)]])
        left == TLCEval([i \in 1..Len(r.ps) |-> Crop(ToSet(r.ps[i].a), r.box)])
        size(a) == Area(r.wx, r.wy, a)
        live == {i \in 1..Len(r.ps) : left[i] # {}}
        of(i) == {q \in 1..Len(r.out) : r.out[q].id = r.ps[i].id}
        the(i) == r.out[CHOOSE q \in of(i) : TRUE]
        one == {i \in live : Cardinality(of(i)) = 1}
    IN Cl("EachParcelOnce", one = live /\ Len(r.out) = Cardinality(live))
       \cup Cl("KeepsGeometry", \A i \in one : the(i).exact = 1 /\ ToSet(the(i).a) = left[i])
       \cup Cl("KeepsLandUse", \A i \in one : the(i).l = r.ps[i].l)
       \cup Cl("LargestSettlement", \A i \in one : the(i).t \in AllowedBy(size, ss, left[i], r.box))
       \cup Cl("CategoryCode", \A i \in one : the(i).cat = Category(the(i).t, r.ps[i].l))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
