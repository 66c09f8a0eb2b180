------------------------------- MODULE Cells --------------------------------
(***************************************************************************)
(* The recursive bisection as a program: a stack of blocks to do, each     *)
(* divided in four until depth 0 and then interpolated.  At the end every  *)
(* cell has the bilinear value of its block (Assigned), the same whichever *)
(* block of those that share it wrote it last (Agree).                     *)
(*                                                                         *)
(* Fault: "none", or "transposed" (the function is asked at (j, i)), "gap" *)
(* (blocks do not share their border), "half" (the value of the shared     *)
(* row is taken from the next row) - refuted.                              *)
(***************************************************************************)
EXTENDS CellsDefs, TLC

CONSTANTS MaxH, MaxW, Depths, Fault

VARIABLES h, w, depth, todo, grid
vars == <<h, w, depth, todo, grid>>

\* a function that is not symmetric nor bilinear
F(i, j) == (i * i * 3 + j * 5 + i * j * j * 2) % 23
Asked(i, j) == IF Fault = "transposed" THEN F(j, i) ELSE IF Fault = "half" /\ i > 0 THEN F(i + 1, j) ELSE F(i, j)

Init ==
    /\ h \in 1..MaxH /\ w \in 1..MaxW /\ depth \in Depths
    /\ todo = {[d |-> depth, i |-> 0, j |-> 0, n |-> h, m |-> w]}
    /\ grid = [c \in (0..h - 1) \X (0..w - 1) |-> <<0, 0>>]

Divide(b) ==
    LET a == b.n \div 2
        c == b.m \div 2
        g == IF Fault = "gap" /\ b.n > 1 THEN 0 ELSE 1
    IN {[d |-> b.d - 1, i |-> b.i, j |-> b.j, n |-> a + g, m |-> c + 1],
        [d |-> b.d - 1, i |-> b.i, j |-> b.j + c, n |-> a + g, m |-> b.m - c],
        [d |-> b.d - 1, i |-> b.i + a, j |-> b.j, n |-> b.n - a, m |-> c + 1],
        [d |-> b.d - 1, i |-> b.i + a, j |-> b.j + c, n |-> b.n - a, m |-> b.m - c]}
Next ==
    \E b \in todo :
        IF b.d > 0 THEN todo' = (todo \ {b}) \cup Divide(b) /\ UNCHANGED <<h, w, depth, grid>>
        ELSE /\ todo' = todo \ {b}
             /\ grid' = [c \in DOMAIN grid |->
                           IF c[1] \in b.i..(b.i + b.n - 1) /\ c[2] \in b.j..(b.j + b.m - 1)
                           THEN Bilinear(Asked, <<b.i, b.i + b.n - 1>>, <<b.j, b.j + b.m - 1>>, c[1], c[2])
                           ELSE grid[c]]
             /\ UNCHANGED <<h, w, depth>>
Spec == Init /\ [][Next]_vars

Blocks == {<<R, C>> : R \in Leaves(depth, 0, h), C \in Leaves(depth, 0, w)}
Assigned == todo = {} =>
    \A c \in DOMAIN grid : /\ grid[c][2] # 0
                           /\ \E b \in Blocks : In(c[1], b[1]) /\ In(c[2], b[2])
                           /\ \A b \in Blocks : In(c[1], b[1]) /\ In(c[2], b[2]) =>
                                 FracEq(grid[c], Bilinear(F, b[1], b[2], c[1], c[2]))
=============================================================================
