------------------------------ MODULE TidyDefs ------------------------------
(***************************************************************************)
(* What is left in the output folder.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Multipliers == {"terrain", "shielding", "topographic"}
Directions == {"n", "s", "e", "w", "ne", "nw", "se", "sw"}

\* a tile is processed if there is elevation in it, buffer included
HasElevation(z) == \E i \in DOMAIN z : \E j \in DOMAIN z[i] : z[i][j] # 0

\* the results of a processed tile: without a class of the terrain table in
\* it there is no terrain multiplier
ResultsOf(live, known) ==
    IF ~live THEN {}
    ELSE (IF known THEN Multipliers ELSE Multipliers \ {"terrain"}) \X Directions
=============================================================================
