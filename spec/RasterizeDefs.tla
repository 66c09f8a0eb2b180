--------------------------- MODULE RasterizeDefs ----------------------------
(***************************************************************************)
(* Polygons as lists of rings of vertices <<x, y>>, in eighths of a cell   *)
(* from the corner of a grid, x along the rows and y down the columns of   *)
(* the grid; the centre of cell (r, c) is <<8c + 4, 8r + 4>>.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Centre(r, c) == <<8 * c + 4, 8 * r + 4>>
Next1(ring, i) == IF i = Len(ring) THEN 1 ELSE i + 1
Edges(rings) == UNION {{<<rings[k][i], rings[k][Next1(rings[k], i)], k, i>> : i \in 1..Len(rings[k])} : k \in 1..Len(rings)}
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnEdge(e, p) == /\ Cross(e[1], e[2], p) = 0
                /\ Between(p[1], e[1][1], e[2][1]) /\ Between(p[2], e[1][2], e[2][2])
\* the ray from p to the right crosses the edge
Crosses(e, p) ==
    LET a == e[1]
        b == e[2]
    IN /\ (a[2] > p[2]) # (b[2] > p[2])
       /\ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
OnBorder(rings, p) == \E e \in Edges(rings) : OnEdge(e, p)
Odd(rings, p) == Cardinality({e \in Edges(rings) : Crosses(e, p)}) % 2 = 1
Inside(rings, p)  == ~OnBorder(rings, p) /\ Odd(rings, p)
Outside(rings, p) == ~OnBorder(rings, p) /\ ~Odd(rings, p)

\* codes a point may get from features [rings, cat]; 0 is for none
Codes(fs, p) ==
    LET in == {i \in 1..Len(fs) : Inside(fs[i].rings, p)}
        edge == {i \in 1..Len(fs) : OnBorder(fs[i].rings, p)}
    IN {fs[i].cat : i \in in \cup edge} \cup (IF in = {} THEN {0} ELSE {})
=============================================================================
