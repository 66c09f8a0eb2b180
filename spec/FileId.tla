------------------------------- MODULE FileId -------------------------------
(***************************************************************************)
(* Files are written, appended to, replaced by tables and removed; a       *)
(* process reads one, piece by piece, and tells its digest and size.       *)
(* Two digests are equal if and only if the contents were, whatever the    *)
(* size of the pieces and whatever was told before.  Faults:               *)
(*   first   only the first piece counts                                   *)
(*   short   a last, shorter piece is left out                             *)
(*   text    line ends are not told apart                                  *)
(*   cache   what was told of a file of the same name and size is repeated *)
(*   append  a table is added to what was in the file                      *)
(***************************************************************************)
EXTENDS FileIdDefs, FiniteSets

CONSTANTS Names, Steps, Longest, Fault

VARIABLES fs, told, n, rd
vars == <<fs, told, n, rd>>

None == [absent |-> TRUE]
Alphabet == {10, 13}
Contents == UNION {[1..k -> Alphabet] : k \in 0..Longest}
Table == <<10>>
Idle == [on |-> FALSE]

Init == /\ fs = [x \in Names |-> None] /\ told = {} /\ n = 0 /\ rd = Idle
There == {x \in Names : fs[x] # None}
Act == ~rd.on /\ n < Steps /\ n' = n + 1
Put == Act /\ \E x \in Names, c \in Contents : fs' = [fs EXCEPT ![x] = [c |-> c]] /\ UNCHANGED <<told, rd>>
Add == Act /\ \E x \in There, b \in Alphabet : Len(fs[x].c) < Longest /\ fs' = [fs EXCEPT ![x].c = Append(@, b)] /\ UNCHANGED <<told, rd>>
Save == Act /\ \E x \in Names :
            /\ fs' = [fs EXCEPT ![x] = [c |-> IF Fault = "append" /\ fs[x] # None THEN fs[x].c \o Table ELSE Table]]
            /\ told' = told \cup {[what |-> "saved", c |-> fs'[x].c, by |-> x, size |-> 0, d |-> Table]}
            /\ UNCHANGED rd
Remove == Act /\ \E x \in There : fs' = [fs EXCEPT ![x] = None] /\ UNCHANGED <<told, rd>>
Ask == Act /\ \E x \in There, k \in 1..2 :
            /\ rd' = [on |-> TRUE, x |-> x, k |-> k, at |-> 0, fed |-> <<>>]
            /\ UNCHANGED <<fs, told>>
Min(a, b) == IF a < b THEN a ELSE b
Piece == SubSeq(fs[rd.x].c, rd.at + 1, Min(rd.at + rd.k, Len(fs[rd.x].c)))
Drop13(s) == SelectSeq(s, LAMBDA b : b # 13)
Read == /\ rd.on /\ rd.at < Len(fs[rd.x].c)
        /\ ~(Fault = "first" /\ rd.at > 0)
        /\ ~(Fault = "short" /\ Len(Piece) < rd.k)
        /\ rd' = [rd EXCEPT !.at = @ + Len(Piece), !.fed = @ \o (IF Fault = "text" THEN Drop13(Piece) ELSE Piece)]
        /\ UNCHANGED <<fs, told, n>>
Old(x) == {s \in told : s.what = "stat" /\ s.by = x /\ s.size = Len(fs[x].c)}
Tell == /\ rd.on /\ ~ENABLED Read
        /\ LET d == IF Fault = "cache" /\ Old(rd.x) # {} THEN (CHOOSE s \in Old(rd.x) : TRUE).d ELSE rd.fed IN
           told' = told \cup {[what |-> "stat", c |-> fs[rd.x].c, by |-> rd.x, size |-> Len(fs[rd.x].c), d |-> d]}
        /\ rd' = Idle
        /\ UNCHANGED <<fs, n>>
Next == Put \/ Add \/ Save \/ Remove \/ Ask \/ Read \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Tell)

Stats == {s \in told : s.what = "stat"}
SameIffSame == \A s, t \in Stats : s.c = t.c <=> s.d = t.d
Replaced == \A s \in told : s.what = "saved" => s.c = s.d
Told == rd.on ~> ~rd.on
=============================================================================
