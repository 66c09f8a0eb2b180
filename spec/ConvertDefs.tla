----------------------------- MODULE ConvertDefs -----------------------------
(***************************************************************************)
(* The combined multiplier of a cell and direction, and the maximum over   *)
(* the directions.  A factor is a number, Miss (missing) or Absent (there  *)
(* is no file for it).  Factors in 1/32, products in 1/32768.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Miss == -9999
Absent == -1
Unit == 32
Names8 == <<"e", "n", "ne", "nw", "s", "se", "sw", "w">>
Types == {"shielding", "terrain", "topographic"}

Num(v) == IF v = Absent THEN Unit ELSE v
Combine3(a, b, c) == IF a = Miss \/ b = Miss \/ c = Miss THEN Miss
                     ELSE Num(a) * Num(b) * Num(c)
\* f: type -> factor
Combine(f) == Combine3(f["shielding"], f["terrain"], f["topographic"])

IsMax(m, vals) ==
    IF vals = {Miss} THEN m = Miss
    ELSE m \in vals \ {Miss} /\ \A v \in vals \ {Miss} : v <= m
=============================================================================
