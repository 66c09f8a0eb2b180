----------------------------- MODULE Rasterize ------------------------------
(***************************************************************************)
(* A polygon layer is burnt row by row: in each row the crossings of the   *)
(* outline with the line of the centres are found, and the cells between   *)
(* every other pair of them get the code.                                  *)
(***************************************************************************)
EXTENDS RasterizeDefs

CONSTANTS Rows, Cols, Coords, Fault

VARIABLES f1, f2, row, map
vars == <<f1, f2, row, map>>

Pts == Coords \X Coords
\* triangles, described once
Tri == {t \in [1..3 -> Pts] : /\ Cross(t[1], t[2], t[3]) > 0
                              /\ \A k \in 2..3 : t[1][1] < t[k][1] \/ (t[1][1] = t[k][1] /\ t[1][2] < t[k][2])}
Init == /\ f1 \in Tri /\ f2 \in (IF Fault = "none" THEN {<<>>} \cup {t \in Tri : t[1] = f1[2]} ELSE {<<>>})
        /\ row = 0 /\ map = [c \in (0..(Rows - 1)) \X (0..(Cols - 1)) |-> 0]

\* the line of the centres of a row, and the cells right of a crossing of it
P(r, c) == LET q == IF Fault = "corner" THEN <<8 * c, 8 * r>> ELSE Centre(r, c)
           IN IF Fault = "transposed" THEN <<q[2], q[1]>> ELSE q
RightOf(e, r) == {c \in 0..(Cols - 1) : ~Crosses(e, P(r, c))}
Span(ring, r) ==
    LET es == {e \in Edges(<<ring>>) : (e[1][2] > P(r, 0)[2]) # (e[2][2] > P(r, 0)[2])}
        hits(c) == Cardinality({e \in es : c \in RightOf(e, r)})
    IN {c \in 0..(Cols - 1) : hits(c) % 2 = 1}
Burn(ring, cat, m, r) ==
    IF ring = <<>> THEN m
    ELSE [c \in DOMAIN m |-> IF c[1] = r /\ c[2] \in Span(ring, r) THEN cat ELSE m[c]]
Step == /\ row < Rows /\ row' = row + 1
        /\ map' = Burn(f2, 102, Burn(f1, 7, map, row), row)
        /\ UNCHANGED <<f1, f2>>
Spec == Init /\ [][Step]_vars

Fs == <<[rings |-> <<f1>>, cat |-> 7]>> \o (IF f2 = <<>> THEN <<>> ELSE <<[rings |-> <<f2>>, cat |-> 102]>>)
Burnt == \A c \in DOMAIN map : c[1] < row => map[c] \in Codes(Fs, Centre(c[1], c[2]))
\* inside a triangle is on the same side of all its edges
Convex == \A c \in DOMAIN map : LET p == Centre(c[1], c[2]) IN
    Inside(<<f1>>, p) <=> \A i \in 1..3 : Cross(f1[i], f1[Next1(f1, i)], p) > 0
=============================================================================
