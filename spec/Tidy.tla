-------------------------------- MODULE Tidy --------------------------------
(***************************************************************************)
(* The files of the output folder while tiles are processed by concurrent  *)
(* processes: the elevation of a tile is cut, and if there is any, the     *)
(* land cover is resampled, the shielding factors are written, each of the *)
(* three multipliers is saved, and the temporary files are removed.        *)
(* Live is the set of tiles with elevation, Known that of the tiles with a *)
(* class of the terrain table.  Faults:                                    *)
(*   keep-empty   the elevation of a skipped tile is left                  *)
(*   no-skip      tiles without elevation are processed                    *)
(*   skip-known   tiles without known class are skipped                    *)
(*   sweep        temporary files of all tiles are removed after a tile    *)
(*   stop         the first tile without elevation ends the process        *)
(***************************************************************************)
EXTENDS TidyDefs

CONSTANTS N, T, Fault

Procs == 1..N
Tiles == 1..T
None == 0
Tmp(t) == {<<t, "dem">>, <<t, "lc">>, <<t, "ms">>}
Res(t, m) == {<<t, m, d>> : d \in Directions}

VARIABLES Live, Known, queue, at, tile, files, done
vars == <<Live, Known, queue, at, tile, files, done>>

Init == /\ Live \in SUBSET Tiles /\ Known \in SUBSET Tiles
        /\ queue = [i \in 1..T |-> i]
        /\ at = [p \in Procs |-> "idle"] /\ tile = [p \in Procs |-> None]
        /\ files = {} /\ done = {}

Start(p) == /\ at[p] = "idle" /\ queue # <<>>
            /\ tile' = [tile EXCEPT ![p] = Head(queue)] /\ queue' = Tail(queue)
            /\ files' = files \cup {<<Head(queue), "dem">>}
            /\ at' = [at EXCEPT ![p] = "look"]
            /\ UNCHANGED <<Live, Known, done>>
Skipped(t) == \/ t \notin Live /\ Fault # "no-skip"
              \/ Fault = "skip-known" /\ t \notin Known
Look(p) == /\ at[p] = "look"
           /\ LET t == tile[p] IN
              IF Skipped(t)
              THEN /\ files' = IF Fault = "keep-empty" THEN files ELSE files \ {<<t, "dem">>}
                   /\ done' = done \cup {t}
                   /\ at' = [at EXCEPT ![p] = IF Fault = "stop" THEN "stopped" ELSE "idle"]
              ELSE /\ files' = files \cup {<<t, "lc">>}
                   /\ at' = [at EXCEPT ![p] = "terrain"]
                   /\ UNCHANGED done
           /\ UNCHANGED <<Live, Known, queue, tile>>
Terrain(p) == /\ at[p] = "terrain"
              /\ files' = IF tile[p] \in Known THEN files \cup Res(tile[p], "terrain") ELSE files
              /\ at' = [at EXCEPT ![p] = "factors"]
              /\ UNCHANGED <<Live, Known, queue, tile, done>>
Factors(p) == /\ at[p] = "factors"
              /\ files' = files \cup {<<tile[p], "ms">>}
              /\ at' = [at EXCEPT ![p] = "shielding"]
              /\ UNCHANGED <<Live, Known, queue, tile, done>>
\* the factors must still be there
Shielding(p) == /\ at[p] = "shielding" /\ <<tile[p], "ms">> \in files
                /\ files' = (files \ {<<tile[p], "ms">>}) \cup Res(tile[p], "shielding")
                /\ at' = [at EXCEPT ![p] = "topographic"]
                /\ UNCHANGED <<Live, Known, queue, tile, done>>
Topographic(p) == /\ at[p] = "topographic" /\ <<tile[p], "dem">> \in files
                  /\ files' = files \cup Res(tile[p], "topographic")
                  /\ at' = [at EXCEPT ![p] = "tidy"]
                  /\ UNCHANGED <<Live, Known, queue, tile, done>>
Tidy(p) == /\ at[p] = "tidy"
           /\ files' = files \ (IF Fault = "sweep" THEN UNION {Tmp(t) : t \in Tiles} ELSE Tmp(tile[p]))
           /\ done' = done \cup {tile[p]}
           /\ at' = [at EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<Live, Known, queue, tile>>

Next == \E p \in Procs : Start(p) \/ Look(p) \/ Terrain(p) \/ Factors(p) \/ Shielding(p) \/ Topographic(p) \/ Tidy(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ResultsIn(t) == {<<f[2], f[3]>> : f \in {g \in files : g[1] = t /\ Len(g) = 3}}
DoneTidy == \A t \in done : /\ Tmp(t) \cap files = {}
                            /\ ResultsIn(t) = ResultsOf(t \in Live, t \in Known)
Over == ~ENABLED Next
AllDone == Over => done = Tiles
=============================================================================
