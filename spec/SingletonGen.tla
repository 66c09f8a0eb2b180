---------------------------- MODULE SingletonGen ----------------------------
(***************************************************************************)
(* Schedules of threads: who runs for how many steps, in turns; what is    *)
(* left is run to its end in the order of the last turns.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Threads, Lengths, Turns

VARIABLES plan, done
Init == plan = <<>> /\ done = FALSE
Turn == /\ Len(plan) < Turns /\ ~done
        /\ \E t \in Threads, n \in Lengths :
              /\ plan # <<>> => plan[Len(plan)][1] # t
              /\ plan' = Append(plan, <<t, n>>)
        /\ UNCHANGED done
Stop == /\ Len(plan) = Turns /\ ~done /\ done' = TRUE
        /\ PrintT("GEN " \o ToJson(plan)) /\ UNCHANGED plan
Spec == Init /\ [][Turn \/ Stop]_<<plan, done>>
=============================================================================
