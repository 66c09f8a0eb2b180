------------------------------ MODULE FailDefs ------------------------------
(* How a run of several processes may end. *)
EXTENDS Naturals, FiniteSets

\* how: what became of each process: "ok", "failed", "killed" (with the others
\* of its run), or "stuck"
Ended(how) == \A p \in DOMAIN how : how[p] # "stuck"
Success(how) == \A p \in DOMAIN how : how[p] = "ok"
\* nobody is killed unless one of the run failed
KilledForCause(how) == (\E p \in DOMAIN how : how[p] = "killed") => \E p \in DOMAIN how : how[p] = "failed"
=============================================================================
