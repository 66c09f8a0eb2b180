----------------------------- MODULE ConfigDefs -----------------------------
(***************************************************************************)
(* The value of a setting as a function of the history.  An operation of   *)
(* the history is a record: op is "write" (a file f is written, with the   *)
(* settings in set and all of them the value v), "name" (the file f is     *)
(* named as configuration file) or "get" (a setting is read).              *)
(* Value 0 is that of the project's default file.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}

\* the last of the indices satisfying P, 0 if there is none
Last(n, P(_)) == LET I == {i \in 1..n : P(i)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

\* the contents of file f at operation n: its last writing before
Writing(h, n, f) == Last(n, LAMBDA i : h[i].op = "write" /\ h[i].f = f)
\* (h[n] names the file; for the default file, 0, set tells what it defines)
Defines(h, n, f, s) == IF f = 0 THEN s \in Range(h[n].set) ELSE Writing(h, n, f) # 0 /\ s \in Range(h[Writing(h, n, f)].set)

\* the last naming of a file that defined the setting then
Source(h, n, s) == Last(n, LAMBDA i : h[i].op = "name" /\ Defines(h, i, h[i].f, s))
Value(h, n, s) == LET i == Source(h, n, s) IN
                  IF i = 0 THEN 0 ELSE IF h[i].f = 0 THEN 0 ELSE h[Writing(h, i, h[i].f)].v
=============================================================================
