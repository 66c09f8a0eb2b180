-------------------------------- MODULE Fail --------------------------------
(***************************************************************************)
(* A run in which something fails.  Process 0 prepares, gives each tile to *)
(* the others (or computes all itself if it is alone), then all convert:   *)
(* the same with the second job of each tile, and process 0 makes the      *)
(* mosaic.  At any step of any process (Faulty steps) the step may fail:   *)
(* an exception, or data that is written when the file is closed (the      *)
(* Late steps).  A process that fails ends all others, too.                *)
(* out: the results there are of the jobs: 0 not, 1 complete, 2 broken.    *)
(*                                                                         *)
(* Faults: "alone" a process that fails ends alone; "leaves" it ends as if *)
(* done and leaves the others; "swallow" a failed job is skipped;          *)
(* "late" errors at closing are not noticed.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FailDefs

CONSTANTS N, T, Fault
Procs == 0..(N - 1)
Tiles == 1..T
Jobs == Tiles \X {"compute", "convert"}
Workers == IF N = 1 THEN {0} ELSE Procs \ {0}
Mosaic == <<0, "mosaic">>
None == <<0, "none">>

VARIABLES how,     \* "running" or how it ended
          at,      \* phase of each process: "start", "compute", "convert", "end"
          job,     \* the job it has
          todo,    \* jobs not given out yet (of the master)
          back,    \* jobs the master knows the end of
          out, fired
vars == <<how, at, job, todo, back, out, fired>>

Init == /\ how = [p \in Procs |-> "running"] /\ at = [p \in Procs |-> "start"] /\ job = [p \in Procs |-> None]
        /\ todo = {} /\ back = {} /\ out = [j \in Jobs \cup {Mosaic} |-> 0] /\ fired = FALSE

Up(p) == how[p] = "running"
Of(phase) == Tiles \X {phase}
\* process 0 opens a phase once all before is done
Open(phase, from) ==
    /\ Up(0) /\ at[0] = from /\ todo = {} /\ job[0] = None
    /\ phase = "convert" => back = Of("compute")
    /\ at' = [at EXCEPT ![0] = phase] /\ todo' = Of(phase) /\ UNCHANGED <<how, job, back, out, fired>>
Join(p) == /\ p # 0 /\ Up(p) /\ at[p] = "start" /\ at[0] # "start" /\ at' = [at EXCEPT ![p] = "work"]
           /\ UNCHANGED <<how, job, todo, back, out, fired>>
Give(p) == /\ Up(0) /\ Up(p) /\ p \in Workers /\ job[p] = None /\ at[p] \in {"work", "compute", "convert"}
           /\ \E j \in todo : job' = [job EXCEPT ![p] = j] /\ todo' = todo \ {j}
           /\ UNCHANGED <<how, at, back, out, fired>>
Finish(p) == /\ Up(p) /\ Up(0) /\ job[p] # None
             /\ out' = [out EXCEPT ![job[p]] = IF @ = 0 THEN 1 ELSE @]
             /\ back' = back \cup {job[p]} /\ job' = [job EXCEPT ![p] = None]
             /\ UNCHANGED <<how, at, todo, fired>>
Close == /\ Up(0) /\ at[0] = "convert" /\ todo = {} /\ back = Jobs
         /\ at' = [at EXCEPT ![0] = "end"] /\ out' = [out EXCEPT ![Mosaic] = IF @ = 0 THEN 1 ELSE @]
         /\ UNCHANGED <<how, job, todo, back, fired>>
End(p) == /\ Up(p) /\ job[p] = None /\ at[0] = "end" /\ (p = 0 \/ at[p] = "work")
          /\ how' = [how EXCEPT ![p] = "ok"] /\ UNCHANGED <<at, job, todo, back, out, fired>>

\* a failure of what process p does now; kind "late": only noticed, if at all, at closing
Fail(p, kind) ==
    /\ Up(p) /\ ~fired /\ fired' = TRUE
    /\ LET what == IF p = 0 /\ at[0] = "convert" /\ back = Jobs THEN Mosaic ELSE job[p]
           broken == IF what = None THEN out ELSE [out EXCEPT ![what] = 2]
       IN /\ kind = "late" => what # None
          /\ out' = broken
          /\ IF kind = "late" /\ Fault = "late" THEN UNCHANGED how
             ELSE IF Fault = "swallow" /\ what # None THEN UNCHANGED how
             ELSE IF Fault = "leaves" THEN how' = [how EXCEPT ![p] = "ok"]
             ELSE IF Fault = "alone" THEN how' = [how EXCEPT ![p] = "failed"]
             ELSE how' = [q \in Procs |-> IF q = p THEN "failed" ELSE IF how[q] = "running" THEN "killed" ELSE how[q]]
    /\ UNCHANGED <<at, job, todo, back>>

Work == \/ Open("compute", "start") \/ Open("convert", "compute") \/ Close
        \/ \E p \in Procs : Join(p) \/ Give(p) \/ Finish(p) \/ End(p)
Next == Work \/ \E p \in Procs, k \in {"at once", "late"} : Fail(p, k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

SuccessMeansComplete == Success(how) => \A j \in DOMAIN out : out[j] = 1
OnlyFailuresFail == /\ KilledForCause(how)
                    /\ (\E p \in Procs : how[p] = "failed") => fired
Ends == <>(\A p \in Procs : ~Up(p))
=============================================================================
