------------------------------ MODULE TraceRec ------------------------------
(***************************************************************************)
(* Validation of independent records of the real code.  The records are    *)
(* the lines of the file named by the environment variable TRACE; each one *)
(* is an initial state, and the only step judges it: the clauses of the    *)
(* specification it breaks are printed.  Every record gets a verdict.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rec, done
tvars == <<rec, done>>

Cl(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
\* the rows (columns) 0..n-1 of a raster that are judged: all, or those listed
Judged(r, f, n) == IF Has(r, f) THEN {r[f][q] : q \in 1..Len(r[f])} ELSE 0..(n - 1)
Note(kind) == PrintT("NOTE " \o kind)

Report(n, bad) ==
    \/ bad = {}
    \/ /\ bad # {}
       /\ PrintT("REJECT " \o ToString(n) \o " " \o ToString(bad))

TraceInit == rec \in 1..Len(Trace) /\ done = FALSE

Judge(Clauses(_)) ==
    /\ ~done
    /\ done' = TRUE
    /\ rec' = rec
    /\ Report(rec, Clauses(Trace[rec]))
=============================================================================
