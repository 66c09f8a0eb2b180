----------------------------- MODULE DispatchGen -----------------------------
(***************************************************************************)
(* All orders in which the results of the workers can be received: each    *)
(* worker has at most one tile, a received result gives it another one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NWorkers, NTiles
VARIABLES busy, left, order
vars == <<busy, left, order>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ busy = 1..Min(NWorkers, NTiles)
        /\ left = NTiles - Min(NWorkers, NTiles)
        /\ order = <<>>
Next == /\ busy # {}
        /\ \E d \in busy :
              /\ order' = Append(order, d)
              /\ IF left > 0 THEN busy' = busy /\ left' = left - 1
                 ELSE busy' = busy \ {d} /\ left' = left
              /\ (busy' = {} => PrintT("GEN " \o ToJson([n |-> NWorkers, t |-> NTiles, order |-> order'])))
Spec == Init /\ [][Next]_vars
EachTileOnce == busy = {} => Len(order) = NTiles
=============================================================================
