---------------------------- MODULE RestartTrace ----------------------------
(***************************************************************************)
(* Judges histories of runs into one output folder.  fresh[v]: what a run  *)
(* with the inputs v leaves in a folder that was not there (pairs of the   *)
(* file and the identity of its contents).  runs: ver, how ("killed", "ok" *)
(* or what went wrong) and, for those that end, files.                     *)
(***************************************************************************)
EXTENDS TraceRec

Set(x) == {<<x[i][1], x[i][2]>> : i \in 1..Len(x)}
Names(s) == {f[1] : f \in s}
Ends(r) == {k \in 1..Len(r.runs) : r.runs[k].how # "killed"}
Clauses(r) ==
    Cl("ARunThatIsNotKilledEnds", \A k \in Ends(r) : r.runs[k].how = "ok")
    \cup Cl("NothingOfEarlierRuns", \A k \in Ends(r) : r.runs[k].how = "ok" =>
                Names(Set(r.runs[k].files)) \subseteq Names(Set(r.fresh[r.runs[k].ver])))
    \cup Cl("EverythingOfThisRun", \A k \in Ends(r) : r.runs[k].how = "ok" =>
                Names(Set(r.fresh[r.runs[k].ver])) \subseteq Names(Set(r.runs[k].files)))
    \cup Cl("SameContents", \A k \in Ends(r) : r.runs[k].how = "ok" =>
                \A f \in Set(r.runs[k].files), g \in Set(r.fresh[r.runs[k].ver]) : f[1] = g[1] => f[2] = g[2])

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
