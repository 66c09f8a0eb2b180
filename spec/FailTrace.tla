------------------------------ MODULE FailTrace ------------------------------
(***************************************************************************)
(* Judges runs of the real programs in which something may fail.  A record *)
(*   how       what became of each process ("ok", "failed", "killed",      *)
(*             "stuck")                                                    *)
(*   fault     1 if something failed, or could not work: an exception was  *)
(*             raised, an input or the space on the disk was missing       *)
(*   impossible 1 if the results cannot be made of the inputs              *)
(*   want, got the result files there should be (of a run without fault)   *)
(*             and those there are, <<file, contents>>                     *)
(*   kept      1 if files that are none of the run's are as they were      *)
(***************************************************************************)
EXTENDS TraceRec, FailDefs

Set(s) == {s[k] : k \in 1..Len(s)}
Clauses(r) ==
    Cl("AllProcessesEnd", Ended(r.how))
    \cup Cl("SuccessMeansComplete", Success(r.how) => Set(r.got) = Set(r.want))
    \cup Cl("ImpossibleFails", Success(r.how) => r.impossible = 0)
    \cup Cl("NothingFailsWithoutCause", r.fault = 0 => Success(r.how))
    \cup Cl("KilledForCause", KilledForCause(r.how))
    \cup Cl("NothingElseIsTouched", r.kept = 1)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
