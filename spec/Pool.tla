-------------------------------- MODULE Pool --------------------------------
(* Tiles as a pool of work: each non-empty one is taken once and finished. *)
CONSTANT Tiles
VARIABLE state
Init == state \in [Tiles -> {"free", "empty"}]
Take(t) == state[t] = "free" /\ state' = [state EXCEPT ![t] = "busy"]
Done(t) == state[t] = "busy" /\ state' = [state EXCEPT ![t] = "done"]
Next == \E t \in Tiles : Take(t) \/ Done(t)
Spec == Init /\ [][Next]_state /\ WF_state(Next)
=============================================================================
