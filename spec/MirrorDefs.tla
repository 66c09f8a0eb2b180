----------------------------- MODULE MirrorDefs -----------------------------
(***************************************************************************)
(* Ways to change the inputs of a run and what becomes of its results.     *)
(*   "ew", "ns", "turn"  the ground is mirrored east-west, north-south     *)
(*                       (about the equator), or both                      *)
(*   "raise", "relabel", "store", "shift"   all elevations raised, classes *)
(*                       renumbered, rasters stored otherwise, the ground  *)
(*                       moved by whole degrees of longitude               *)
(* Cells are <<row, column>> from 0.                                       *)
(***************************************************************************)
EXTENDS Integers

EW(d) == CASE d = "e" -> "w" [] d = "w" -> "e" [] d = "ne" -> "nw" [] d = "nw" -> "ne"
           [] d = "se" -> "sw" [] d = "sw" -> "se" [] OTHER -> d
NS(d) == CASE d = "n" -> "s" [] d = "s" -> "n" [] d = "ne" -> "se" [] d = "se" -> "ne"
           [] d = "nw" -> "sw" [] d = "sw" -> "nw" [] OTHER -> d
Ways == {"ew", "ns", "turn", "raise", "relabel", "store", "shift"}
DirOf(way, d) == CASE way = "ew" -> EW(d) [] way = "ns" -> NS(d) [] way = "turn" -> NS(EW(d)) [] OTHER -> d
CellOf(way, c, rows, cols) ==
    <<IF way \in {"ns", "turn"} THEN rows - 1 - c[1] ELSE c[1],
      IF way \in {"ew", "turn"} THEN cols - 1 - c[2] ELSE c[2]>>
=============================================================================
