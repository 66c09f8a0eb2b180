--------------------------- MODULE SingletonTrace ---------------------------
(***************************************************************************)
(* Judges histories of threads constructing singletons.  r.threads gives   *)
(* for each thread the class it constructs and the argument it passes;     *)
(* r.h is the history of events e, in their order in time, of thread t:    *)
(*   "begin": the initialiser of class c starts for object o, argument a   *)
(*   "end":   it ends                                                      *)
(*   "fail":  it fails                                                     *)
(*   "got":   the construction returns object o (of class c, -1 if not a   *)
(*            single object of that class)                                 *)
(*   "error": the construction raises; a = 1 if it is the error with which *)
(*            the initialiser this thread ran has failed                   *)
(* r.stuck = 1: threads did not come to an end.                            *)
(***************************************************************************)
EXTENDS TraceRec

Ev(r, e, c) == {i \in DOMAIN r.h : r.h[i].e = e /\ r.h[i].c = c}
\* the end (or failure) of what begins at i
Over(r, i) == {j \in DOMAIN r.h : j > i /\ r.h[j].e \in {"end", "fail"} /\ r.h[j].c = r.h[i].c /\ r.h[j].o = r.h[i].o}
Classes(r) == {r.threads[t].c : t \in DOMAIN r.threads}
Clauses(r) ==
    LET C == Classes(r)
    IN Cl("AllAnswered", r.stuck = 0 /\ \A t \in DOMAIN r.threads :
             \E i \in DOMAIN r.h : r.h[i].t = t /\ r.h[i].e \in {"got", "error"})
       \cup Cl("InitialiserOnce", \A c \in C : Cardinality(Ev(r, "end", c)) <= 1
                 /\ \A i \in Ev(r, "begin", c) : \A j \in Ev(r, "end", c) : j > i \/ r.h[j].o = r.h[i].o)
       \cup Cl("OneAtATime", \A c \in C : \A i, j \in Ev(r, "begin", c) : i < j => \E k \in Over(r, i) : k < j)
       \cup Cl("SameObject", \A c \in C : \A i, j \in Ev(r, "got", c) : r.h[i].o = r.h[j].o)
       \cup Cl("FullyInitialised", \A c \in C : \A i \in Ev(r, "got", c) :
                 \E j \in Ev(r, "end", c) : j < i /\ r.h[j].o = r.h[i].o)
       \cup Cl("OwnClass", \A i \in DOMAIN r.h : r.h[i].e = "got" => r.h[i].c = r.threads[r.h[i].t].c)
       \cup Cl("ArgumentsPassed", \A i \in DOMAIN r.h : r.h[i].e = "begin" => r.h[i].a = r.threads[r.h[i].t].a)
       \cup Cl("OwnError", \A i \in DOMAIN r.h : r.h[i].e = "error" => r.h[i].a = 1
                 /\ \E j \in Ev(r, "fail", r.h[i].c) : j < i /\ r.h[j].t = r.h[i].t)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
