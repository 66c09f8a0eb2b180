------------------------------- MODULE Grids --------------------------------
(***************************************************************************)
(* Resampling a class raster on grid s to grid g cell by cell, and cutting *)
(* a window out of a raster: the two ways the inputs reach a tile.         *)
(***************************************************************************)
EXTENDS GridsDefs

CONSTANTS MaxN, MaxP, MaxOff

VARIABLES s, g, out, todo
vars == <<s, g, out, todo>>

\* distinct, non-zero value per source cell
Val(r, c) == 10 * r + c
V == [r \in 1..s.ny |-> [c \in 1..s.nx |-> Val(r, c)]]

GridsOf(off) == [x0 : off, y0 : off, pw : 1..MaxP, ph : 1..MaxP, nx : 1..MaxN, ny : 1..MaxN]

Init == /\ s \in GridsOf({0}) /\ s.pw = s.ph
        /\ g \in GridsOf((-MaxOff)..MaxOff) /\ g.pw = g.ph
        /\ out = <<>>
        /\ todo = {<<c, r>> : c \in 0..(g.nx - 1), r \in 0..(g.ny - 1)}

Sample == \E cell \in todo :
            /\ \A o \in todo : cell[2] < o[2] \/ (cell[2] = o[2] /\ cell[1] <= o[1])
            /\ \E v \in Nearest(s, V, g, cell[1], cell[2]) :
                  out' = Append(out, <<cell[1], cell[2], v>>)
            /\ todo' = todo \ {cell}
            /\ UNCHANGED <<s, g>>
Next == Sample
Spec == Init /\ [][Next]_vars

SrcValues == {V[r][c] : r \in 1..s.ny, c \in 1..s.nx}
NoInvention == \A q \in 1..Len(out) : out[q][3] \in SrcValues \cup {0}
\* on a grid aligned with the source, resampling is cutting
AlignedIsCut ==
    (g.pw = s.pw /\ g.ph = s.ph /\ g.x0 % g.pw = 0 /\ g.y0 % g.ph = 0) =>
        \A q \in 1..Len(out) :
            LET c == out[q][1] + g.x0 \div g.pw
                r == out[q][2] + g.y0 \div g.ph
            IN out[q][3] = IF Inside(s, c, r) THEN Val(r + 1, c + 1) ELSE 0
\* cells wholly inside one source cell get that cell's value
ContainedExact ==
    \A q \in 1..Len(out) :
        \A sc \in 0..(s.nx - 1), sr \in 0..(s.ny - 1) :
            LET lx == g.x0 + out[q][1] * g.pw
                ly == g.y0 + out[q][2] * g.ph
            IN (/\ lx >= s.x0 + sc * s.pw /\ lx + g.pw <= s.x0 + (sc + 1) * s.pw
                /\ ly >= s.y0 + sr * s.ph /\ ly + g.ph <= s.y0 + (sr + 1) * s.ph)
               => out[q][3] = Val(sr + 1, sc + 1)
=============================================================================
