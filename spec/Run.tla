--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* A run of N processes over T tiles: process 0 prepares the output        *)
(* folder, then hands out tiles (cut first) to the workers and receives    *)
(* their results in any order; after a barrier the tiles are scattered for *)
(* conversion and the results gathered into the mosaics.  Sends complete   *)
(* at once (Sync = FALSE) or when the message is received (Sync = TRUE).   *)
(* The rules of RunDefs observe the run through st.                        *)
(***************************************************************************)
EXTENDS RunDefs, TLC

CONSTANTS N, T,
          Sync,        \* rendezvous sends
          Fault        \* "none" or the name of a faulty design

Empty == IF T >= 2 THEN {2} ELSE {}     \* a tile without elevation
Workers == 1..(N - 1)
Procs == 0..(N - 1)
Stop == 0
None == -1

VARIABLES pc, w, want, dst, term, box, res, cur, st, part, todo, got, out
vars == <<pc, w, want, dst, term, box, res, cur, st, part, todo, got, out>>

Ev(k, r, t) == [k |-> k, r |-> r, t |-> t]
Fs(k, r, c, t) == [k |-> k, r |-> r, c |-> c, t |-> t]
Run2(e) == Step(st, e)

RECURSIVE Order(_)
Order(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y
                                     IN <<x>> \o Order(s \ {x})

Init ==
    /\ pc = [r \in Procs |-> IF r = 0 THEN "wipe" ELSE "bar1"]
    /\ w = 1                          \* next tile to hand out
    /\ want = N - 1                   \* results to wait for
    /\ dst = 1                        \* worker being fed
    /\ term = 0
    /\ box = [d \in Workers |-> None]
    /\ res = {}
    /\ cur = [r \in Procs |-> None]
    /\ st = Fresh(T, Empty)
    /\ part = [r \in Procs |-> <<>>]
    /\ todo = [r \in Procs |-> Funs]
    /\ got = 0
    /\ out = {}

Goto(r, l) == pc' = [pc EXCEPT ![r] = l]

Wipe == /\ pc[0] = "wipe" /\ st' = Run2(Fs("del", 0, "stale", 0)) /\ Goto(0, "mkdir")
        /\ UNCHANGED <<w, want, dst, term, box, res, cur, part, todo, got, out>>
Mkdir == /\ pc[0] = "mkdir" /\ st' = Run2(Fs("new", 0, "dir", 0)) /\ Goto(0, "bar1")
         /\ UNCHANGED <<w, want, dst, term, box, res, cur, part, todo, got, out>>
\* a worker that prepares the folder as well
WipeToo(r) == /\ Fault = "all-prepare" /\ r # 0 /\ pc[r] = "bar1"
              /\ st' = Run2(Fs("rep", r, "dir", 0))
              /\ UNCHANGED <<pc, w, want, dst, term, box, res, cur, part, todo, got, out>>

\* ---- barriers -----------------------------------------------------------
At(l) == \A r \in Procs : pc[r] = l
\* (the workers act only on messages, so none of the rules needs this barrier)
Barrier1 == /\ IF Fault = "no-first-barrier" THEN TRUE ELSE At("bar1")
            /\ \E r \in Procs : pc[r] = "bar1"
            /\ pc' = [r \in Procs |->
                        IF pc[r] # "bar1" THEN pc[r]
                        ELSE IF N = 1 THEN "serial" ELSE IF r = 0 THEN "feed" ELSE "wait"]
            /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>
Barrier2 == /\ At("bar2")
            /\ pc' = [r \in Procs |-> IF r = 0 THEN "scatter" ELSE
                                      IF pc[r] = "bar2" THEN "part" ELSE pc[r]]
            /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>

\* ---- handing out tiles ----------------------------------------------------
\* the master cuts the next tile and sends it to worker d, or tells it to stop
Hand(d, label) ==
    IF w <= T
    THEN /\ st' = Run2(Fs("new", 0, "tmp", w))
         /\ box' = [box EXCEPT ![d] = w]
         /\ w' = w + 1
    ELSE /\ box' = [box EXCEPT ![d] = Stop]
         /\ UNCHANGED <<st, w>>
Feed == /\ pc[0] = "feed" /\ dst <= N - 1
        /\ (Sync => \A d \in Workers : box[d] = None)
        /\ Hand(dst, "feed")
        \* a worker that got nothing sends no result
        /\ want' = IF w <= T THEN want ELSE IF Fault = "wait-for-all" THEN want ELSE w - 1
        /\ dst' = dst + 1
        /\ Goto(0, "feed")
        /\ UNCHANGED <<term, res, cur, part, todo, got, out>>
Fed == /\ pc[0] = "feed" /\ dst > N - 1
       /\ (Sync => \A d \in Workers : box[d] = None)
       /\ Goto(0, "recv")
       /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>
Recv(d) == /\ pc[0] = "recv" /\ term < want /\ d \in res
           /\ res' = res \ {d}
           /\ dst' = d
           /\ Goto(0, "answer")
           /\ UNCHANGED <<w, want, term, box, cur, st, part, todo, got, out>>
Answer == /\ pc[0] = "answer"
          /\ Hand(dst, "answer")
          /\ term' = IF w <= T THEN term ELSE term + 1
          /\ Goto(0, "answered")
          /\ UNCHANGED <<want, dst, res, cur, part, todo, got, out>>
Answered == /\ pc[0] = "answered"
            /\ (Sync => \A d \in Workers : box[d] = None)
            /\ Goto(0, "recv")
            /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>
Enough == /\ pc[0] = "recv"
          /\ (term >= want \/ (Fault = "stop-early" /\ w > T))
          /\ Goto(0, "bar2")
          /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>

\* ---- computing a tile -------------------------------------------------------
Take(d) == /\ pc[d] = "wait" /\ box[d] # None
           /\ cur' = [cur EXCEPT ![d] = box[d]]
           /\ box' = [box EXCEPT ![d] = None]
           /\ Goto(d, IF box[d] = Stop THEN IF Fault = "convert-own" THEN "convert" ELSE "bar2"
                      ELSE "calc")
           /\ todo' = [todo EXCEPT ![d] = IF box[d] \in Empty THEN {} ELSE Funs]
           /\ part' = IF Fault = "convert-own" /\ box[d] = Stop
                      THEN [part EXCEPT ![d] = Order({t \in 1..T : st.owner[t] = d})] ELSE part
           /\ UNCHANGED <<w, want, dst, term, res, st, got, out>>
Compute(r, f) ==
    /\ pc[r] = "calc" /\ f \in todo[r]
    /\ st' = Step(Run2([k |-> "call", r |-> r, t |-> cur[r], f |-> f, ready |-> 1]),
                  [k |-> "ret", r |-> r, t |-> cur[r], f |-> f])
    /\ todo' = [todo EXCEPT ![r] = @ \ {f}]
    /\ UNCHANGED <<pc, w, want, dst, term, box, res, cur, part, got, out>>
CleanUp(r) ==
    /\ pc[r] = "calc" /\ todo[r] = {}
    /\ st' = Run2(Fs("del", r, "tmp", cur[r]))
    /\ Goto(r, IF N = 1 THEN "serial" ELSE "report")
    /\ UNCHANGED <<w, want, dst, term, box, res, cur, part, todo, got, out>>
Report(d) == /\ pc[d] = "report"
             /\ res' = res \cup {d}
             /\ Goto(d, "reported")
             /\ UNCHANGED <<w, want, dst, term, box, cur, st, part, todo, got, out>>
Reported(d) == /\ pc[d] = "reported" /\ (Sync => d \notin res)
               /\ Goto(d, "wait")
               /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>

\* one process alone
Serial == /\ pc[0] = "serial" /\ N = 1
          /\ IF w <= T
             THEN /\ st' = Run2(Fs("new", 0, "tmp", w))
                  /\ cur' = [cur EXCEPT ![0] = w] /\ w' = w + 1
                  /\ todo' = [todo EXCEPT ![0] = IF w \in Empty THEN {} ELSE Funs]
                  /\ Goto(0, "calc")
             ELSE Goto(0, "bar2") /\ UNCHANGED <<st, cur, w, todo>>
          /\ UNCHANGED <<want, dst, term, box, res, part, got, out>>

\* ---- conversion ----------------------------------------------------------------
Shielded == {t \in Real(st) : st.done[t] = Funs}
Part(s, r) == SelectSeq(s, LAMBDA x : \E i \in 1..Len(s) : s[i] = x /\ i % N = r)
PartBad(s, r) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Part(Tail(s), r)
Scatter == /\ pc[0] = "scatter"
           /\ part' = [r \in Procs |-> IF Fault = "shared-part"
                                       THEN PartBad(Order(Shielded), r) ELSE Part(Order(Shielded), r)]
           /\ pc' = [r \in Procs |-> IF pc[r] \in {"scatter", "part"} THEN "convert" ELSE pc[r]]
           /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, todo, got, out>>
Convert(r) ==
    /\ pc[r] = "convert"
    /\ IF part[r] # <<>>
       THEN /\ st' = Step(Run2(Fs("new", r, "m3", Head(part[r]))),
                          Fs("new", r, "max", Head(part[r])))
            /\ part' = [part EXCEPT ![r] = Tail(@)]
            /\ out' = out \cup {Head(part[r])}
            /\ UNCHANGED <<pc, got>>
       ELSE /\ got' = got + 1
            /\ Goto(r, IF r = 0 THEN "gather" ELSE "bar3")
            /\ UNCHANGED <<st, part, out>>
    /\ UNCHANGED <<w, want, dst, term, box, res, cur, todo>>
Gather == /\ pc[0] = "gather" /\ got = N
          /\ Goto(0, "bar3")
          /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>
Barrier3 == /\ At("bar3")
            /\ pc' = [r \in Procs |-> "end"]
            /\ UNCHANGED <<w, want, dst, term, box, res, cur, st, part, todo, got, out>>
End(r) == /\ pc[r] = "end" /\ Goto(r, "gone")
          /\ st' = Run2([k |-> "exit", r |-> r, ok |-> 1])
          /\ UNCHANGED <<w, want, dst, term, box, res, cur, part, todo, got, out>>

Next == Wipe \/ Mkdir \/ Barrier1 \/ Barrier2 \/ Barrier3 \/ Feed \/ Fed \/ Answer \/ Answered
        \/ Enough \/ Serial \/ Scatter \/ Gather
        \/ \E r \in Procs : \/ WipeToo(r) \/ CleanUp(r) \/ Convert(r) \/ End(r)
                            \/ (\E f \in Funs : Compute(r, f))
        \/ \E d \in Workers : Recv(d) \/ Take(d) \/ Report(d) \/ Reported(d)

Fairness == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fairness

Gone == \A r \in Procs : pc[r] = "gone"
Summary == [how |-> IF res = {} /\ \A d \in Workers : box[d] = None THEN "ok" ELSE "leftover",
            stale |-> 0, shielded |-> Order(Shielded), m3 |-> Order(out), max |-> Order(out),
            vrt |-> Order(out), vrtmax |-> Order(out)]

RulesObeyed == st.bad = {}
EndsWell == Gone => Finish(st, N, Summary).bad = {}
NoLeftover == (\A r \in Procs : pc[r] \in {"bar2", "end", "gone"}) =>
                res = {} /\ \A d \in Workers : box[d] = None
Progress == ~Gone => ENABLED Next
Terminates == <>Gone

\* ---- the run as a pool of tiles ------------------------------------------------
pool == [t \in 1..T |-> IF t \in Empty THEN "empty" ELSE
            IF st.done[t] = Funs THEN "done" ELSE
            IF st.owner[t] # -1 THEN "busy" ELSE "free"]
Pool == INSTANCE Pool WITH state <- pool, Tiles <- 1..T
RefinesPool == Pool!Spec
=============================================================================
