------------------------------ MODULE TopoLine ------------------------------
(***************************************************************************)
(* A line of elevations is read downwind point by point; the reader keeps  *)
(* the point its present climb started from (-1 if it is not climbing) and *)
(* closes a hill when the climb ends.                                      *)
(***************************************************************************)
EXTENDS TopoDefs

CONSTANTS MaxLen, Heights, Spacing

VARIABLES y, from, hills, ended
vars == <<y, from, hills, ended>>

Init == /\ \E e \in Heights : y = <<e>>
        /\ from = -1 /\ hills = {} /\ ended = FALSE

Read(e) ==
    /\ ~ended /\ Len(y) < MaxLen
    /\ y' = Append(y, e)
    /\ LET last == y[Len(y)]
           pos == Len(y) - 1 IN
       IF e > last THEN /\ from' = IF from = -1 THEN pos ELSE from
                        /\ hills' = hills
       ELSE /\ from' = -1
            /\ hills' = IF from = -1 THEN hills ELSE hills \cup {<<from, pos>>}
    /\ ended' = FALSE
Finish ==
    /\ ~ended
    /\ ended' = TRUE
    /\ hills' = IF from = -1 THEN hills ELSE hills \cup {<<from, Len(y) - 1>>}
    /\ from' = -1
    /\ UNCHANGED y
Next == Finish \/ \E e \in Heights : Read(e)
Spec == Init /\ [][Next]_vars

\* the reader finds exactly the maximal climbs
Found == ended => hills = Hills(y)
\* ridges and valleys alternate, and every hill has one of each
Alternate ==
    ended =>
      LET r == Ridges(y)
          v == Valleys(y) IN
        /\ r \cap v = {}
        /\ \A a, b \in r : a < b => \E c \in v : a < c /\ c < b
        /\ \A a, b \in v : a < b => \E c \in r : a < c /\ c < b
        /\ Flat(y) <=> (r = {} /\ v = {})
        /\ \A h \in Hills(y) : \A c \in r \cup v : c <= h[1] \/ c >= h[2]
\* the same hills seen from the other side are descents
Mirror == [i \in 1..Len(y) |-> -y[Len(y) + 1 - i]]
Dual == ended => Ridges(Mirror) = {Len(y) - 1 - v : v \in Valleys(y)}
Bounds ==
    ended => \A k \in 0..(Len(y) - 1) :
        LET m == LineAt(y, Spacing, k) IN
          /\ m >= One6 /\ m <= 1710000
          /\ (\A h \in Hills(y) : ~Counts(y, h, Spacing)) => m = One6
          \* no hill can act further than four times the larger half-width behind it
          /\ (m > One6 => \E h \in Hills(y) : Counts(y, h, Spacing)
                             /\ FAbs(k - h[2]) * Spacing * 10 < 3 * L2m(y, h, Spacing))
\* the crest of a hill has the largest multiplier of that hill (without other hills)
CrestIsTop ==
    ended => (Cardinality({h \in Hills(y) : Counts(y, h, Spacing)}) = 1 =>
        LET h == CHOOSE h \in Hills(y) : Counts(y, h, Spacing)
        IN \A k \in 0..h[2] : LineAt(y, Spacing, k) <= LineAt(y, Spacing, h[2]))
\* the level of the ground does not matter
Raised == [i \in 1..Len(y) |-> y[i] + 7]
LevelFree == ended => \A k \in 0..(Len(y) - 1) : LineAt(Raised, Spacing, k) = LineAt(y, Spacing, k)
=============================================================================
