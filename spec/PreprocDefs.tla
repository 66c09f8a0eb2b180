---------------------------- MODULE PreprocDefs -----------------------------
(***************************************************************************)
(* Settlement and land use of parcels.  Areas are sets of triangles        *)
(* <<x, y, h>>, the two halves of the squares of a grid.  The type of a    *)
(* settlement area that is not recognised is "".                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

SettlementCodes == [x \in {"Major CBD", "City", "Urban", "Large Town", "Small Town"} |->
    CASE x = "Major CBD" -> 1 [] x = "City" -> 2 [] x = "Urban" -> 3 [] x = "Large Town" -> 4 [] OTHER -> 5]
LandUseNames == {"Parkland", "Primary Production", "Education", "Residential", "Water", "Other", "Commercial",
                 "Industrial", "Hospital/Medical", "Transport"}
LandUseCode(x) ==
    CASE x = "Parkland" -> 1 [] x = "Primary Production" -> 2 [] x = "Education" -> 4 [] x = "Residential" -> 5
      [] x = "Water" -> 6 [] x = "Other" -> 7 [] x = "Commercial" -> 8 [] x = "Industrial" -> 9
      [] x = "Hospital/Medical" -> 10 [] x = "Transport" -> 11 [] OTHER -> 0
Kind(t) == IF t \in DOMAIN SettlementCodes THEN t ELSE ""
Category(t, l) == 100 * (IF t \in DOMAIN SettlementCodes THEN SettlementCodes[t] ELSE 0) + LandUseCode(l)

\* corners of a triangle; two triangles meet if they share one
Corners(p) == {<<p[1] + 1, p[2]>>, <<p[1], p[2] + 1>>,
               IF p[3] = 0 THEN <<p[1], p[2]>> ELSE <<p[1] + 1, p[2] + 1>>}
CornersOf(a) == UNION {Corners(p) : p \in a}
\* box <<x1, x2, y1, y2>>, or <<>> for no crop
InBox(p, b) == b = <<>> \/ (b[1] <= p[1] /\ p[1] < b[2] /\ b[3] <= p[2] /\ p[2] < b[4])
Crop(a, b) == {p \in a : InBox(p, b)}

\* ss: settlements [t, a]; all of a kind together, cropped
AreaOf(ss, k, b) == UNION {Crop(ss[i].a, b) : i \in {i \in 1..Len(ss) : Kind(ss[i].t) = k}}
Kinds(ss) == {Kind(ss[i].t) : i \in 1..Len(ss)}

\* the types a parcel of the (cropped) area a may be given: of the area that
\* covers most of it; one that merely touches it may count or not
AllowedBy(Size(_), ss, a, b) ==
    LET area == [k \in Kinds(ss) |-> AreaOf(ss, k, b)]
        cover == [k \in Kinds(ss) |-> Size(area[k] \cap a)]
        best == {k \in Kinds(ss) : \A m \in Kinds(ss) : cover[m] <= cover[k]}
        touching == {k \in Kinds(ss) : CornersOf(area[k]) \cap CornersOf(a) # {}}
    IN IF best # {} /\ \E k \in best : cover[k] > 0 THEN best ELSE {""} \cup touching
Allowed(ss, a, b) == AllowedBy(Cardinality, ss, a, b)
\* with columns of squares wx[1], wx[2], ... wide and rows wy[1], ... high
Area(wx, wy, a) == MapThenSumSet(LAMBDA p : wx[p[1] + 1] * wy[p[2] + 1], a)
=============================================================================
