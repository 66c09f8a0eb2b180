----------------------------- MODULE TopoSweep ------------------------------
(***************************************************************************)
(* Sweep of a tile along the lines of a direction: one line after the      *)
(* other, cell by cell, each line from an upwind edge cell.                *)
(***************************************************************************)
EXTENDS TopoDefs

CONSTANTS MaxDim

VARIABLES nr, nc, d, todo, at, seen
vars == <<nr, nc, d, todo, at, seen>>

None == <<-1, -1>>
Init == /\ nr \in 1..MaxDim /\ nc \in 1..MaxDim /\ d \in Directions
        /\ todo = Starts(d, nr, nc) /\ at = None
        /\ seen = [c \in Cells(nr, nc) |-> 0]
\* lines in increasing order of their first cell, as one order is enough
Start == /\ at = None /\ todo # {}
         /\ LET c == CHOOSE c \in todo : \A x \in todo : Idx(c, nr) <= Idx(x, nr) IN
            /\ todo' = todo \ {c} /\ at' = c
            /\ seen' = [seen EXCEPT ![c] = @ + 1]
         /\ UNCHANGED <<nr, nc, d>>
Move == /\ at # None
        /\ IF Inside(Down(at, d), nr, nc)
           THEN at' = Down(at, d) /\ seen' = [seen EXCEPT ![at'] = @ + 1]
           ELSE at' = None /\ UNCHANGED seen
        /\ UNCHANGED <<nr, nc, d, todo>>
Next == Start \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMostOnce == \A c \in Cells(nr, nc) : seen[c] <= 1
AllAtTheEnd == (todo = {} /\ at = None) => \A c \in Cells(nr, nc) : seen[c] = 1
\* upwind cells are visited before
Order == \A c \in Cells(nr, nc) : seen[c] = 1 /\ Inside(Up(c, d), nr, nc) => seen[Up(c, d)] = 1
LinesLaw == /\ \A l \in Lines(d, nr, nc) : Len(l) <= FMax(nr, nc)
            /\ Cardinality(Lines(d, nr, nc)) = (IF DR(d) = 0 THEN 0 ELSE nc) + (IF DC(d) = 0 THEN 0 ELSE nr)
                                              - (IF Diagonal(d) THEN 1 ELSE 0)
Ends == <>[](todo = {} /\ at = None)
=============================================================================
