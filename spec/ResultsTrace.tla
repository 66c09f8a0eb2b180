---------------------------- MODULE ResultsTrace ----------------------------
(***************************************************************************)
(* Judges runs of the same input with different numbers of processes and   *)
(* schedules.  runs[1] is the serial one.  A run: how (how it ended),      *)
(* files (a function from the files left to the identity of their contents *)
(* as a sequence of pairs).                                                *)
(***************************************************************************)
EXTENDS TraceRec

Left(x) == {<<f[1], f[2]>> : f \in {x.files[i] : i \in 1..Len(x.files)}}
Names(x) == {f[1] : f \in Left(x)}
Clauses(r) ==
    Cl("EveryRunEnds", \A k \in 1..Len(r.runs) : r.runs[k].how = "ok")
    \cup Cl("SomeResult", \A k \in 1..Len(r.runs) : r.runs[k].how = "ok" => Names(r.runs[k]) # {})
    \cup Cl("SameFiles", \A k \in 1..Len(r.runs) : r.runs[k].how = "ok" => Names(r.runs[k]) = Names(r.runs[1]))
    \cup Cl("SameContents", \A k \in 1..Len(r.runs) : r.runs[k].how = "ok" =>
               \A f \in Left(r.runs[k]), g \in Left(r.runs[1]) : f[1] = g[1] => f[2] = g[2])

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
