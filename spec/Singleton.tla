----------------------------- MODULE Singleton ------------------------------
(***************************************************************************)
(* Threads construct singleton classes, by double-checked locking.  Each   *)
(* thread constructs one class; a constructor takes several steps and may  *)
(* fail; an object may count as false; a class may construct another one   *)
(* in its constructor (Nested: class 1 waits for class 2 to exist).        *)
(*                                                                         *)
(* Fault: "none", or "no-lock", "no-recheck", "early" (the object is       *)
(* published before it is initialised), "falsy" (a false object counts as  *)
(* none), "one-lock" (all classes share a lock), "keep-lock" (the lock is  *)
(* not released when the constructor fails) - refuted.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Classes, CanFail, Falsy, Nested, Fault

VARIABLES cls,      \* class each thread constructs
          pc,       \* program counter of each thread
          inst,     \* object of each class: number of its construction, 0 for none
          ready,    \* objects initialised: set of <<class, construction>>
          lock,     \* holder of each lock, 0 for none
          made,     \* constructions begun per class
          mine,     \* construction the thread runs
          got       \* what the thread got: -1 nothing yet, -2 an error, else an object
vars == <<cls, pc, inst, ready, lock, made, mine, got>>

L(t) == IF Fault = "one-lock" THEN CHOOSE c \in Classes : TRUE ELSE cls[t]
None(c) == inst[c] = 0 \/ (Fault = "falsy" /\ Falsy)

Init ==
    /\ cls \in [Threads -> Classes]
    /\ pc = [t \in Threads |-> "check"]
    /\ inst = [c \in Classes |-> 0]
    /\ ready = {}
    /\ lock = [c \in Classes |-> 0]
    /\ made = [c \in Classes |-> 0]
    /\ mine = [t \in Threads |-> 0]
    /\ got = [t \in Threads |-> -1]

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Check(t) ==
    /\ pc[t] = "check"
    /\ Goto(t, IF ~None(cls[t]) THEN "return" ELSE IF Fault = "no-lock" THEN "begin" ELSE "acquire")
    /\ UNCHANGED <<cls, inst, ready, lock, made, mine, got>>
Acquire(t) ==
    /\ pc[t] = "acquire" /\ lock[L(t)] = 0
    /\ lock' = [lock EXCEPT ![L(t)] = t]
    /\ Goto(t, IF Fault = "no-recheck" THEN "begin" ELSE "recheck")
    /\ UNCHANGED <<cls, inst, ready, made, mine, got>>
Recheck(t) ==
    /\ pc[t] = "recheck"
    /\ Goto(t, IF None(cls[t]) THEN "begin" ELSE "release")
    /\ UNCHANGED <<cls, inst, ready, lock, made, mine, got>>
Begin(t) ==
    /\ pc[t] = "begin"
    /\ made' = [made EXCEPT ![cls[t]] = @ + 1]
    /\ mine' = [mine EXCEPT ![t] = made[cls[t]] + 1]
    /\ inst' = IF Fault = "early" THEN [inst EXCEPT ![cls[t]] = made[cls[t]] + 1] ELSE inst
    /\ Goto(t, "end")
    /\ UNCHANGED <<cls, ready, lock, got>>
End(t) ==
    /\ pc[t] = "end"
    /\ Nested /\ cls[t] = 1 /\ (\E u \in Threads : cls[u] = 2) => inst[2] # 0
    /\ ready' = ready \cup {<<cls[t], mine[t]>>}
    /\ Goto(t, "store")
    /\ UNCHANGED <<cls, inst, lock, made, mine, got>>
Fail(t) ==
    /\ pc[t] = "end" /\ CanFail /\ mine[t] = 1
    /\ got' = [got EXCEPT ![t] = -2]
    /\ Goto(t, IF Fault \in {"no-lock", "keep-lock"} THEN "done" ELSE "unwind")
    /\ UNCHANGED <<cls, inst, ready, lock, made, mine>>
Store(t) ==
    /\ pc[t] = "store"
    /\ inst' = [inst EXCEPT ![cls[t]] = mine[t]]
    /\ Goto(t, IF Fault = "no-lock" THEN "return" ELSE "release")
    /\ UNCHANGED <<cls, ready, lock, made, mine, got>>
Release(t) ==
    /\ pc[t] \in {"release", "unwind"}
    /\ lock' = [lock EXCEPT ![L(t)] = 0]
    /\ Goto(t, IF pc[t] = "unwind" THEN "done" ELSE "return")
    /\ UNCHANGED <<cls, inst, ready, made, mine, got>>
Return(t) ==
    /\ pc[t] = "return"
    /\ got' = [got EXCEPT ![t] = inst[cls[t]]]
    /\ Goto(t, "done")
    /\ UNCHANGED <<cls, inst, ready, lock, made, mine>>
Step(t) == Check(t) \/ Acquire(t) \/ Recheck(t) \/ Begin(t) \/ End(t) \/ Fail(t) \/ Store(t) \/ Release(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Got(c) == {t \in Threads : cls[t] = c /\ got[t] >= 0}
OneObject == \A c \in Classes : Cardinality({got[t] : t \in Got(c)}) <= 1
Initialised == \A t \in Threads : got[t] >= 0 => <<cls[t], got[t]>> \in ready
OneInitialiser == \A c \in Classes : Cardinality({x \in ready : x[1] = c}) <= 1
OneAtATime == \A t, u \in Threads : t # u /\ pc[t] = "end" /\ pc[u] = "end" => cls[t] # cls[u]
OwnError == \A t \in Threads : got[t] = -2 => mine[t] # 0
Right == OneObject /\ Initialised /\ OneInitialiser /\ OneAtATime /\ OwnError
AllAnswered == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
