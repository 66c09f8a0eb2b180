------------------------------ MODULE Results -------------------------------
(***************************************************************************)
(* What a run leaves in the output folder, as a function of the schedule.  *)
(* Process 0 cuts the elevation of a tile into a temporary file and hands  *)
(* the tile to a process; that one resamples the land cover into another   *)
(* temporary file, reads both back, and writes the result of the tile.     *)
(* Processes keep a memory of what they did before.  Faults:               *)
(*   leak         the result depends on the tile the process did before    *)
(*   shared-temp  the temporary files of all tiles have the same name      *)
(*   first-only   only the first process has read the configuration        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, T, Fault

Procs == 1..N
Tiles == 1..T
None == 0

VARIABLES queue, dem, lc, at, tile, mem, result
vars == <<queue, dem, lc, at, tile, mem, result>>

File(t) == IF Fault = "shared-temp" THEN 1 ELSE t
\* the result of a tile from what was read and what the process remembers
F(d, l, m, p) == <<d, l, IF Fault = "leak" THEN m ELSE None,
                   IF Fault = "first-only" /\ p # 1 THEN "default" ELSE "named">>
Serial == [t \in Tiles |-> <<t, t, None, "named">>]

Init == /\ queue = [i \in 1..T |-> i]
        /\ dem = [t \in Tiles |-> None] /\ lc = [t \in Tiles |-> None]
        /\ at = [p \in Procs |-> "idle"] /\ tile = [p \in Procs |-> None]
        /\ mem = [p \in Procs |-> None]
        /\ result = [t \in Tiles |-> <<>>]

Dispatch(p) ==
    /\ at[p] = "idle" /\ queue # <<>>
    /\ dem' = [dem EXCEPT ![File(Head(queue))] = Head(queue)]
    /\ tile' = [tile EXCEPT ![p] = Head(queue)]
    /\ at' = [at EXCEPT ![p] = "resample"]
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<lc, mem, result>>
Resample(p) ==
    /\ at[p] = "resample"
    /\ lc' = [lc EXCEPT ![File(tile[p])] = tile[p]]
    /\ at' = [at EXCEPT ![p] = "compute"]
    /\ UNCHANGED <<queue, dem, tile, mem, result>>
Compute(p) ==
    /\ at[p] = "compute"
    /\ result' = [result EXCEPT ![tile[p]] = F(dem[File(tile[p])], lc[File(tile[p])], mem[p], p)]
    /\ mem' = [mem EXCEPT ![p] = tile[p]]
    /\ at' = [at EXCEPT ![p] = "idle"]
    /\ UNCHANGED <<queue, dem, lc, tile>>

Next == \E p \in Procs : Dispatch(p) \/ Resample(p) \/ Compute(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == queue = <<>> /\ \A p \in Procs : at[p] = "idle"
\* the same whatever the number of processes and the order in which they work
SameAsSerial == Finished => result = Serial
Ends == <>Finished
=============================================================================
