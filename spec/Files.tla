------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The programs and the files they read and write: the pre-processing      *)
(* makes category polygons and a category raster of the layers, the        *)
(* rasterisation another one, the multipliers are made of elevation,       *)
(* category raster and table, and converted.  The user changes the inputs  *)
(* now and then, and runs the programs in any order.                       *)
(* ver: the version of a file; made: the versions it was made from.        *)
(*                                                                         *)
(* A file changes only by the program it is an output of (or by the user,  *)
(* an input), and what the last program wrote belongs to the inputs as     *)
(* they are.                                                               *)
(* Faults: "update" statistics are added to the elevation raster, "clears" *)
(* the conversion starts from an empty folder, "in-place" the elevation is *)
(* cropped where it is.                                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, FilesDefs

CONSTANTS MaxRuns, MaxEdits, Fault
VARIABLES ver, made, by, runs, edits
vars == <<ver, made, by, runs, edits>>

AlsoTouched(p) == IF Fault = "update" /\ p = "multipliers" THEN {"elevation"}
                  ELSE IF Fault = "clears" /\ p = "convert" THEN {"results"}
                  ELSE IF Fault = "in-place" /\ p = "rasterize" THEN {"elevation"} ELSE {}

Init == /\ ver = [f \in Inputs \cup Outputs |-> IF f \in Inputs THEN 1 ELSE 0]
        /\ made = [f \in Outputs |-> <<>>] /\ by = "user" /\ runs = 0 /\ edits = 0
Edit(f) == /\ edits < MaxEdits /\ edits' = edits + 1 /\ by' = "user"
           /\ ver' = [ver EXCEPT ![f] = @ + 1] /\ UNCHANGED <<made, runs>>
Run(p) == /\ runs < MaxRuns /\ runs' = runs + 1 /\ by' = p /\ UNCHANGED edits
          /\ \A f \in Reads(p) : ver[f] > 0
          /\ made' = [f \in Outputs |-> IF f \in Writes(p) THEN [g \in Reads(p) |-> ver[g]] ELSE made[f]]
          /\ ver' = [f \in DOMAIN ver |-> IF f \in Writes(p) \cup AlsoTouched(p) THEN ver[f] + 1 ELSE ver[f]]
Next == (\E f \in Inputs : Edit(f)) \/ (\E p \in Programs : Run(p))
Spec == Init /\ [][Next]_vars

OnlyItsOwn == [][\A f \in DOMAIN ver : ver'[f] # ver[f] =>
                    IF by' = "user" THEN f \in Inputs ELSE f \in Writes(by')]_vars
UpToDate == by \in Programs => \A f \in Writes(by) : made[f] = [g \in Reads(by) |-> ver[g]]
=============================================================================
