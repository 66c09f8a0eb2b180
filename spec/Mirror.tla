------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* The parts of the computation have no direction of their own: what they  *)
(* look at for a cell and a direction in the mirrored ground is the mirror *)
(* image of what they look at for the mirrored direction.  One part is     *)
(* done after the other for some cell and direction, once with the ground  *)
(* and once with the mirrored ground.  Faults:                             *)
(*   names   two diagonal directions are mistaken for one another          *)
(*   edge    the first column is not looked at                             *)
(*   start   lines of a diagonal direction start on one edge only          *)
(*   facing  slopes are taken to face uphill when they face west           *)
(***************************************************************************)
EXTENDS TopoDefs, MirrorDefs
S == INSTANCE ShieldDefs

CONSTANTS MaxRows, MaxCols, MaxWidth, MaxGrad, Fault

VARIABLES rows, cols, way, dir, cell, width, lag, grad, part, seen
vars == <<rows, cols, way, dir, cell, width, lag, grad, part, seen>>

Read(d) == IF Fault = "names" THEN (CASE d = "se" -> "sw" [] d = "sw" -> "se" [] OTHER -> d) ELSE d
In(c) == Inside(c, rows, cols) /\ (Fault # "edge" \/ c[2] > 0)

Terrain(d, c) == {p \in Window(Read(d), c[1], c[2], rows, cols, width, lag) : In(p)}
Shielding(d, c) == {p \in {<<c[1] + o[1], c[2] + o[2]>> : o \in S!Sector(Read(d), width)} : In(p)}
LinesOf(d) == IF Fault = "start" /\ Diagonal(d)
              THEN {LineFrom(c, d, rows, cols) : c \in {c \in Starts(d, rows, cols) : c[1] \in {0, rows - 1}}}
              ELSE Lines(d, rows, cols)
Line(d, c) == {l \in LinesOf(d) : \E k \in 1..Len(l) : l[k] = c}
\* the sectors the ground may face, of its gradient to the east and north
Facing(g) == IF Fault = "facing" /\ g[1] < 0 THEN S!SectorsOf(-g[1], -g[2], 0) ELSE S!SectorsOf(g[1], g[2], 0)
GradOf(w, g) == <<IF w \in {"ew", "turn"} THEN -g[1] ELSE g[1], IF w \in {"ns", "turn"} THEN -g[2] ELSE g[2]>>

Init == /\ rows \in 1..MaxRows /\ cols \in 1..MaxCols
        /\ way \in Ways /\ dir \in Directions
        /\ cell \in (0..(rows - 1)) \X (0..(cols - 1))
        /\ width \in 1..MaxWidth /\ lag \in 0..1
        /\ grad \in ((-MaxGrad)..MaxGrad) \X ((-MaxGrad)..MaxGrad)
        \* parts are independent: gradients with one raster only
        /\ (rows = MaxRows /\ cols = 1 /\ width = 1 /\ lag = 0) \/ grad = <<0, 0>>
        /\ part = "terrain" /\ seen = <<{}, {}>>
Image(a) == {CellOf(way, p, rows, cols) : p \in a}
Then(p, q, here, there) == part = p /\ part' = q /\ seen' = <<here, there>>
Next ==
    /\ UNCHANGED <<rows, cols, way, dir, cell, width, lag, grad>>
    /\ LET d2 == DirOf(way, dir)
           c2 == CellOf(way, cell, rows, cols)
       IN \/ Then("terrain", "shielding", Image(Terrain(dir, cell)), Terrain(d2, c2))
          \/ Then("shielding", "topography", Image(Shielding(dir, cell)), Shielding(d2, c2))
          \/ Then("topography", "facing", {[k \in 1..Len(l) |-> CellOf(way, l[k], rows, cols)] : l \in Line(dir, cell)},
                  Line(d2, c2))
          \/ Then("facing", "done", {DirOf(way, x) : x \in Facing(grad)}, Facing(GradOf(way, grad)))
Spec == Init /\ [][Next]_vars

SameSeen == seen[1] = seen[2]
OneLine == part = "facing" => Cardinality(seen[2]) = 1
\* mirroring twice, and both mirrorings in either order, lead back
Group == /\ DirOf(way, DirOf(way, dir)) = dir
         /\ DirOf("ns", DirOf("ew", dir)) = DirOf("turn", dir) /\ DirOf("ew", DirOf("ns", dir)) = DirOf("turn", dir)
=============================================================================
