------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Judges the logs of runs.  A record:                                     *)
(*   level    the configured level;  dirOk 1 if its folder can be made     *)
(*   said     of each process (the first is 0) the messages it gave,       *)
(*            <<level, number of the text>>                                *)
(*   logs     the logs there are afterwards: [place, proc, lines]; place   *)
(*            "configured", "fallback" or "other"; lines the numbers of    *)
(*            the texts, 0 what nobody said                                *)
(*   before   the lines of a log from before, if it is to be continued     *)
(*   show     1 if the first process shows its messages                    *)
(*   shown    of each process what its terminal showed                     *)
(*   errs     errors the run ended with                                    *)
(***************************************************************************)
EXTENDS TraceRec, LogDefs

N(r) == Len(r.said)
Texts(ms) == [k \in 1..Len(ms) |-> ms[k][2]]
Wanted(r, p) == Texts(AtLeast(r.said[p + 1], Level(r.level)))
Find(r, p) == {k \in 1..Len(r.logs) : <<r.logs[k].place, r.logs[k].proc>> = LogOf(r.dirOk = 1, p)}
Clauses(r) ==
    Cl("NoError", r.errs = <<>>)
    \cup Cl("OneLogOfEachProcess", r.errs = <<>> =>
             /\ \A p \in 0..(N(r) - 1) : Cardinality(Find(r, p)) = 1
             /\ Len(r.logs) = N(r))
    \cup Cl("ItsMessagesInOrder", \A p \in 0..(N(r) - 1) : \A k \in Find(r, p) :
             r.logs[k].lines = r.before \o Wanted(r, p))
    \cup Cl("ShownByTheFirst", r.errs = <<>> => r.shown[1] = IF r.show = 1 THEN Wanted(r, 0) ELSE <<>>)
    \cup Cl("TheOthersAreQuiet", \A p \in 2..N(r) : r.shown[p] = <<>>)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
