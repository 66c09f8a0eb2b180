----------------------------- MODULE FilesTrace -----------------------------
(***************************************************************************)
(* Judges runs of the programs by the files that changed.  A record:       *)
(*   prog    the program;  exc 1 if it failed;  n processes                *)
(*   writes  the files that are not as before: <<role, kind, name>>, kind  *)
(*           added, changed or removed; role that of a file the program is *)
(*           meant to write, or "input", or "elsewhere"                    *)
(*   needs   roles of which something has to be written                    *)
(***************************************************************************)
EXTENDS FilesDefs, TraceRec

Roled(r) == {r.writes[k][1] : k \in 1..Len(r.writes)}
Clauses(r) ==
    Cl("NoError", r.exc = 0)
    \cup Cl("InputsAsTheyWere", "input" \notin Roled(r))
    \cup Cl("NothingElsewhere", Roled(r) \ {"input"} \subseteq Roles(r.prog))
    \cup Cl("WritesItsOutput", r.exc = 0 => {r.needs[k] : k \in 1..Len(r.needs)} \subseteq Roled(r))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
