------------------------------- MODULE NcFile -------------------------------
(***************************************************************************)
(* Files that are written and overwritten by saving multipliers: reading   *)
(* a file gives what was last saved under its name, with the settings of   *)
(* that time.  Values are small; Faults:                                   *)
(*   keep-larger  overwriting leaves the rows of a larger file before      *)
(*   flip         the rows are written from south to north                 *)
(*   transpose    the coordinates are exchanged                            *)
(*   fill         missing cells are written as a value                     *)
(*   first-cfg    the settings are those of the first save                 *)
(***************************************************************************)
EXTENDS NcFileDefs

CONSTANTS Files, MaxDim, Values, MaxSaves, Fault

VARIABLES disk, last, cfg, cfg0, n
vars == <<disk, last, cfg, cfg0, n>>

None == <<>>
Arrays == UNION {[1..h -> [1..w -> Values \cup {Missing}]] : h, w \in 1..MaxDim}
Flip(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Coord(k, first) == [i \in 1..k |-> first + i]

Init == /\ disk = [f \in Files |-> None] /\ last = [f \in Files |-> None]
        /\ cfg = 0 /\ cfg0 = 0 /\ n = 0

Written(f, s) ==
    LET v1 == IF Fault = "flip" THEN Flip(s.v) ELSE s.v
        v2 == IF Fault = "fill" THEN [i \in DOMAIN v1 |-> [j \in DOMAIN v1[i] |-> IF v1[i][j] = Missing THEN 0 ELSE v1[i][j]]]
              ELSE v1
        v3 == IF Fault = "keep-larger" /\ disk[f] # None /\ Len(disk[f].v) > Len(v2)
              THEN v2 \o SubSeq(disk[f].v, Len(v2) + 1, Len(disk[f].v)) ELSE v2
        t == Fault = "transpose" IN
    [lat |-> IF t THEN s.lon ELSE s.lat, lon |-> IF t THEN s.lat ELSE s.lon, v |-> v3,
     vars |-> <<"crs", s.name>>,
     attrs |-> <<<<"A_x", IF Fault = "first-cfg" THEN cfg0 ELSE s.cfg[1][3]>>>>]

Save(f, a) ==
    LET s == [name |-> "Mz", lat |-> Coord(Len(a), 10), lon |-> Coord(Len(a[1]), 20), v |-> a,
              cfg |-> <<<<"A", "x", cfg>>>>] IN
    /\ n < MaxSaves /\ n' = n + 1
    /\ disk' = [disk EXCEPT ![f] = Written(f, s)]
    /\ last' = [last EXCEPT ![f] = s]
    /\ UNCHANGED <<cfg, cfg0>>
Configure == cfg < 1 /\ cfg' = cfg + 1 /\ UNCHANGED <<disk, last, cfg0, n>>
Next == Configure \/ \E f \in Files, a \in Arrays : Save(f, a)
Spec == Init /\ [][Next]_vars

Faithful == \A f \in Files : last[f] # None =>
    /\ SameGrid(last[f], disk[f]) /\ SameValues(last[f], disk[f])
    /\ UnderItsName(last[f], disk[f]) /\ Recorded(last[f], disk[f])
=============================================================================
