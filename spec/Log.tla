-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* The logs of the processes of a run.  The folder of the configured log   *)
(* may be there, be missing (and is made), or be impossible to make.  Each *)
(* process looks for it, makes it if it saw none, opens its log and writes *)
(* messages as it goes.  files: what is in each log; a log may be left     *)
(* from an earlier run.  shown: what is shown on the terminal.             *)
(*                                                                         *)
(* Faults: "race" a process that finds the folder made meanwhile takes it  *)
(* for impossible; "shared" the logs have no number; "append" what an      *)
(* earlier run left stays; "all" messages of any level are written;        *)
(* "talk" all processes show what they log.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, LogDefs

CONSTANTS N, MaxMsg, Lev, Dir, Verbose, Fault   \* Dir: "there", "missing", "blocked"
Procs == 0..(N - 1)
Old == <<<<60, "old">>>>

VARIABLES dir, pc, files, said, shown, name
vars == <<dir, pc, files, said, shown, name>>

NameOf(ok, p) == IF Fault = "shared" THEN LogOf(ok, 0) ELSE LogOf(ok, p)
Init == /\ dir = Dir /\ pc = [p \in Procs |-> "start"] /\ said = [p \in Procs |-> <<>>]
        /\ files \in {[x \in {} |-> <<>>]} \cup (IF Dir = "there" THEN {[x \in {LogOf(TRUE, p) : p \in Procs} |-> Old]} ELSE {})
        /\ shown = <<>> /\ name = [p \in Procs |-> <<"none", 0>>]
Look(p) == /\ pc[p] = "start" /\ pc' = [pc EXCEPT ![p] = IF dir = "there" THEN "yes" ELSE "make"]
           /\ UNCHANGED <<dir, files, said, shown, name>>
Make(p) == /\ pc[p] = "make"
           /\ dir' = IF dir = "missing" THEN "there" ELSE dir
           /\ pc' = [pc EXCEPT ![p] = IF dir = "blocked" \/ (dir = "there" /\ Fault = "race") THEN "no" ELSE "yes"]
           /\ UNCHANGED <<files, said, shown, name>>
Open(p) == /\ pc[p] \in {"yes", "no"} /\ pc' = [pc EXCEPT ![p] = "run"]
           /\ LET f == NameOf(pc[p] = "yes", p)
              IN /\ name' = [name EXCEPT ![p] = f]
                 /\ files' = [x \in DOMAIN files \cup {f} |->
                                IF x = f THEN (IF Fault = "append" /\ f \in DOMAIN files THEN files[f] ELSE <<>>) ELSE files[x]]
           /\ UNCHANGED <<dir, said, shown>>
Say(p, l) == /\ pc[p] = "run" /\ Len(said[p]) < MaxMsg
             /\ LET m == <<l, p>>
                    logged == l >= Lev \/ Fault = "all"
                IN /\ said' = [said EXCEPT ![p] = Append(@, m)]
                   /\ files' = IF logged THEN [files EXCEPT ![name[p]] = Append(@, m)] ELSE files
                   /\ shown' = IF logged /\ Verbose /\ (p = 0 \/ Fault = "talk") THEN Append(shown, m) ELSE shown
             /\ UNCHANGED <<dir, pc, name>>
Next == \E p \in Procs : Look(p) \/ Make(p) \/ Open(p) \/ \E l \in {10, 20, 40} : Say(p, l)
Spec == Init /\ [][Next]_vars

OwnLog == \A p \in Procs : pc[p] = "run" =>
            /\ name[p] = LogOf(dir # "blocked", p)
            /\ files[name[p]] = AtLeast(said[p], Lev)
Shown == shown = IF Verbose THEN AtLeast(said[0], Lev) ELSE <<>>
=============================================================================
