------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs: n processes, T tiles, which of them are empty,    *)
(* the events in the order they happened, and how the run ended.  Only the *)
(* rules of the property prop (and those common to all) count.             *)
(***************************************************************************)
EXTENDS RunDefs, TraceRec

Pre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* a conversion alone: the tiles have been computed before
Start(r) == LET f == Fresh(r.T, AsSet(r.empty))
            IN IF r.pre = 1 THEN [f EXCEPT !.done = [t \in 1..r.T |-> Funs]] ELSE f
Clauses(r) ==
    LET st == Finish(Fold(Start(r), r.events, 1), r.n, r.fin)
    IN {b \in st.bad : Pre(b, r.prop) \/ Pre(b, "ALL")}

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
