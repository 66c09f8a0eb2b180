----------------------------- MODULE TopoLineM ------------------------------
(* TopoLine with elevations around the thresholds of a hill. *)
EXTENDS Integers
CONSTANTS MaxLen, Spacing
VARIABLES y, from, hills, ended
INSTANCE TopoLine WITH Heights <- {0, 10, 25, 60}
=============================================================================
