----------------------------- MODULE TidyTrace ------------------------------
(***************************************************************************)
(* Judges the output folder after each tile of a run, and at its end.      *)
(* r.how    how the run ended ("ok")                                       *)
(* r.elev   per tile its elevation, buffer included (scaled; a nonzero     *)
(*          elevation is nonzero), r.known whether it has a class of the   *)
(*          terrain table                                                  *)
(* r.steps  per tile done: t, the tile; and per tile of the raster res,    *)
(*          its results (<<multiplier, direction>>), tmp, the number of    *)
(*          other files bearing its name, same, whether its results are    *)
(*          those it had when it was done (1 if it is not done yet)        *)
(* r.last   the same at the end, with other, the number of other files     *)
(* r.alone  pairs of a tile and whether its results are the same if it is  *)
(*          the only tile                                                  *)
(***************************************************************************)
EXTENDS TraceRec, TidyDefs

Results(x, t) == {<<x.res[t][i][1], x.res[t][i][2]>> : i \in 1..Len(x.res[t])}
Expected(r, t) == ResultsOf(HasElevation(r.elev[t]), r.known[t] = 1)
Tiles(r) == 1..Len(r.elev)

Clauses(r) ==
    Cl("RunEnds", r.how = "ok")
    \cup (IF r.how # "ok" THEN {} ELSE
    Cl("TemporaryFilesGone", \A k \in 1..Len(r.steps) : r.steps[k].tmp[r.steps[k].t] = 0)
    \cup Cl("ResultsOfTile", \A k \in 1..Len(r.steps) : Results(r.steps[k], r.steps[k].t) = Expected(r, r.steps[k].t))
    \cup Cl("OthersUndisturbed", \A k \in 1..Len(r.steps) : \A t \in Tiles(r) : r.steps[k].same[t] = 1)
    \cup Cl("NothingElseLeft", r.last.other = 0 /\ \A t \in Tiles(r) : r.last.tmp[t] = 0)
    \cup Cl("ResultsAtEnd", \A t \in Tiles(r) : Results(r.last, t) = Expected(r, t) /\ r.last.same[t] = 1)
    \cup Cl("SameAsAlone", \A k \in 1..Len(r.alone) : r.alone[k][2] = 1))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
