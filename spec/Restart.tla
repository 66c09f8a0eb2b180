------------------------------ MODULE Restart ------------------------------
(***************************************************************************)
(* Runs of the program into one output folder, one after the other, each   *)
(* with one of several sets of inputs (versions), and each of which may be *)
(* killed at any moment.  A run empties the folder file by file, creates   *)
(* it anew, computes its tiles (a temporary file and a result each; a      *)
(* file under way is partial until it is closed), converts every tile of   *)
(* which there is a result, and lists what there is in the mosaic.         *)
(* disk: what each file holds: 0 nothing, Partial, or the version of the   *)
(* inputs it was made from (the mosaic: the set of files it lists).        *)
(*                                                                         *)
(* A run that is not killed leaves what a run into no folder at all leaves.*)
(*                                                                         *)
(* Faults: "keep" the folder is not emptied if it is there; "skip" nor is  *)
(* a tile computed again of which there is a result; "known" only the files of the *)
(* run's own tiles are removed; "resume" the folder is emptied only if the *)
(* mosaic, the mark of a complete run, is there.                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Tiles,      \* numbers of tiles: version v has the tiles 1..v
          MaxRuns, Fault

Versions == Tiles
Max == CHOOSE t \in Tiles : \A u \in Tiles : u <= t
Of(v) == 1..v
Partial == 99
Files == {<<k, t>> : k \in {"tmp", "res", "m3"}, t \in 1..Max}
Nothing == [f \in Files |-> 0]
Fresh(v) == [f \in Files |-> IF f[2] \in Of(v) /\ f[1] # "tmp" THEN v ELSE 0]
FreshList(v) == {<<"m3", t>> : t \in Of(v)}

VARIABLES disk, list, hasList, pc, ver, todo, runs, open
vars == <<disk, list, hasList, pc, ver, todo, runs, open>>
NoFile == <<"none", 0>>

Init == /\ disk = Nothing /\ list = {} /\ hasList = FALSE /\ pc = "idle" /\ ver = 1
        /\ todo = {} /\ runs = 0 /\ open = NoFile

Start(v) ==
    /\ pc \in {"idle", "done"} /\ runs < MaxRuns
    /\ ver' = v /\ runs' = runs + 1 /\ open' = NoFile /\ todo' = Of(v)
    /\ pc' = IF (Fault \in {"keep", "skip"} /\ disk # Nothing) \/ (Fault = "resume" /\ ~hasList) THEN "tiles" ELSE "clear"
    /\ UNCHANGED <<disk, list, hasList>>

Mine(f) == Fault = "known" => f[2] \in Of(ver)
ClearOne == /\ pc = "clear"
            /\ \/ \E f \in Files : disk[f] # 0 /\ Mine(f) /\ disk' = [disk EXCEPT ![f] = 0] /\ UNCHANGED <<list, hasList>>
               \/ hasList /\ hasList' = FALSE /\ list' = {} /\ UNCHANGED disk
            /\ UNCHANGED <<pc, ver, todo, runs, open>>
Cleared == /\ pc = "clear" /\ ~hasList /\ \A f \in Files : Mine(f) => disk[f] = 0
           /\ pc' = "tiles" /\ UNCHANGED <<disk, list, hasList, ver, todo, runs, open>>

\* a file is begun, and closed
Begin(f) == open = NoFile /\ open' = f /\ disk' = [disk EXCEPT ![f] = Partial]
Close(v) == open # NoFile /\ open' = NoFile /\ disk' = [disk EXCEPT ![open] = v]

Compute ==
    /\ pc = "tiles" /\ UNCHANGED <<list, hasList, ver, runs>>
    /\ \/ \E t \in todo : /\ disk[<<"tmp", t>>] # ver /\ Begin(<<"tmp", t>>) /\ UNCHANGED <<pc, todo>>
                          /\ ~(Fault = "skip" /\ disk[<<"res", t>>] # 0)
                          /\ \A u \in todo : disk[<<"tmp", u>>] # ver
       \/ \E t \in todo : /\ disk[<<"tmp", t>>] = ver /\ disk[<<"res", t>>] # ver /\ Begin(<<"res", t>>)
                          /\ UNCHANGED <<pc, todo>>
       \/ Close(ver) /\ UNCHANGED <<pc, todo>>
       \/ \E t \in todo : /\ disk[<<"tmp", t>>] = ver /\ disk[<<"res", t>>] = ver /\ open = NoFile
                          /\ disk' = [disk EXCEPT ![<<"tmp", t>>] = 0] /\ todo' = todo \ {t} /\ UNCHANGED <<pc, open>>
       \/ \E t \in todo : /\ Fault = "skip" /\ disk[<<"res", t>>] # 0 /\ open = NoFile /\ disk[<<"tmp", t>>] = 0
                          /\ todo' = todo \ {t} /\ UNCHANGED <<pc, open, disk>>
       \/ /\ todo = {} /\ open = NoFile /\ pc' = "convert" /\ todo' = {t \in 1..Max : disk[<<"res", t>>] # 0}
          /\ UNCHANGED <<disk, open>>

Convert ==
    /\ pc = "convert" /\ UNCHANGED <<ver, runs>>
    /\ \/ \E t \in todo : Begin(<<"m3", t>>) /\ todo' = todo \ {t} /\ UNCHANGED <<pc, list, hasList>>
       \/ Close(disk[<<"res", open[2]>>]) /\ UNCHANGED <<pc, todo, list, hasList>>
       \/ /\ todo = {} /\ open = NoFile /\ pc' = "done" /\ hasList' = TRUE
          /\ list' = {f \in Files : f[1] = "m3" /\ disk[f] # 0} /\ UNCHANGED <<disk, todo, open>>

\* killed: an open file stays as it is
Kill == pc \in {"clear", "tiles", "convert"} /\ pc' = "idle" /\ open' = NoFile
        /\ UNCHANGED <<disk, list, hasList, ver, todo, runs>>

Next == (\E v \in Versions : Start(v)) \/ ClearOne \/ Cleared \/ Compute \/ Convert \/ Kill
Spec == Init /\ [][Next]_vars

AsFresh == pc = "done" => disk = Fresh(ver) /\ list = FreshList(ver)
NeverMixed == pc \in {"tiles", "convert", "done"} => \A f \in Files : disk[f] \in {0, Partial, ver}
=============================================================================
