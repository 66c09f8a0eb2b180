---------------------------- MODULE NcFileTrace -----------------------------
(***************************************************************************)
(* Judges saved files that were read back.  r.exc is 1 if saving failed,   *)
(* r.saves the saves (see NcFileDefs, with the file f), r.read the files   *)
(* read at the end (with f, names: whether the abstract names multiplier   *)
(* and direction; inputs: whether the inputs are named; dated:             *)
(* whether with the local time of saving; dims: whether the                *)
(* variable has the dimensions lat and lon).  Rows run north to south if   *)
(* the saved latitudes do.                                                 *)
(***************************************************************************)
EXTENDS TraceRec, NcFileDefs

Of(r, f) == r.saves[CHOOSE i \in DOMAIN r.saves : r.saves[i].f = f /\ \A j \in DOMAIN r.saves : r.saves[j].f = f => j <= i]
All(r, P(_, _)) == \A i \in DOMAIN r.read : P(Of(r, r.read[i].f), r.read[i])
Clauses(r) ==
    IF r.exc = 1 THEN {"NoError"} ELSE
    Cl("EveryFile", {r.saves[i].f : i \in DOMAIN r.saves} = {r.read[i].f : i \in DOMAIN r.read})
    \cup Cl("SameGrid", All(r, LAMBDA s, g : g.dims = 1 /\ SameGrid(s, g)))
    \cup Cl("SameValues", All(r, SameValues))
    \cup Cl("UnderItsName", All(r, UnderItsName))
    \cup Cl("SettingsRecorded", All(r, Recorded))
    \cup Cl("InputsRecorded", All(r, LAMBDA s, g : g.inputs = 1))
    \cup Cl("TimeRecorded", All(r, LAMBDA s, g : g.dated = 1))
    \cup Cl("NamesMultiplierAndDirection", All(r, LAMBDA s, g : g.names = 1))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
