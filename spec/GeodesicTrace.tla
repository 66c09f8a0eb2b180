--------------------------- MODULE GeodesicTrace ----------------------------
(***************************************************************************)
(* Judges distances and azimuths (vinc_dist), points reached (vinc_pt) and *)
(* intermediate points (GreatCircle).  Angles are in radians and lengths   *)
(* in equatorial radii, exactly as computed, as numbers of module Big.     *)
(*                                                                         *)
(* r.exc = 1: no proper answer.  r.f is the flattening, r.legs the         *)
(* geodesics claimed, each with the latitude p1, the azimuth a1, the       *)
(* length s, the other latitude p2, the longitude difference l and, if     *)
(* hasback = 1, the azimuth back a2; r.mm is the tolerance in mm.          *)
(* r.arc: arc length g of the great circle of these latitudes and          *)
(* longitude difference.                                                   *)
(***************************************************************************)
EXTENDS TraceRec, GeodesicDefs

Leg(r, g) == Arrives(r.f, g.p1, g.a1, g.s, g.p2, g.l, g.a2, BTimes(Mm, r.mm))
Small == <<0, 0, 0, 0, 1000, 0>>
Arc(a) == BNear(BCos(a.g), BAdd(BMul(BSin(a.p1), BSin(a.p2)), BMul(BMul(BCos(a.p1), BCos(a.p2)), BCos(a.l))), Small)
Clauses(r) ==
    IF r.exc = 1 THEN {"ProperAnswer"} ELSE
    LET v == TLCEval([i \in DOMAIN r.legs |-> Leg(r, r.legs[i])])
    IN Cl("EndsThere", \A i \in DOMAIN v : v[i].here)
       \cup Cl("Shortest", \A i \in DOMAIN v : v[i].short)
       \cup Cl("AzimuthBack", \A i \in DOMAIN v : r.legs[i].hasback = 1 => v[i].back)
       \cup Cl("ArcLength", Has(r, "arc") => Arc(r.arc))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
