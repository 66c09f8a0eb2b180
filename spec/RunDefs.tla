------------------------------- MODULE RunDefs -------------------------------
(***************************************************************************)
(* What is observable of a run: calls of the tile computations, changes of *)
(* the output folder, ends of the processes, and the rules they obey.      *)
(* A history is a sequence of events, folded into a state st by Step; the  *)
(* names of the rules an event breaks are collected in st.bad.             *)
(*                                                                         *)
(* Tiles are 1..T; 0 stands for "no particular tile".  Events:             *)
(*   call/ret  process r enters/leaves computation f of tile t;            *)
(*             ready: its input files exist                                *)
(*   new/del/rep/mod  process r creates, deletes, replaces or rewrites     *)
(*             something of class c (tile t): dir (a folder), stale        *)
(*             (anything from before the run), tmp (a temporary file of    *)
(*             t), res (a multiplier file of t), m3, max (the products of  *)
(*             t), vrt (a mosaic), other                                   *)
(*   exit      process r ends, ok or not                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Funs == {"terrain", "shielding", "topographic"}

Fresh(T, Empty) ==
    [T |-> T, Empty |-> Empty,
     owner |-> [t \in 1..T |-> -1],        \* process computing the tile
     called |-> [t \in 1..T |-> {}],
     done |-> [t \in 1..T |-> {}],
     begun |-> FALSE,                      \* some tile has been cut or computed
     conv |-> [t \in 1..T |-> -1],         \* process that converted the tile
     maxi |-> [t \in 1..T |-> -1],
     last |-> <<>>,                        \* last tile converted, per process
     ended |-> {}, bad |-> {}]

Real(st) == (1..st.T) \ st.Empty
AllDone(st) == \A t \in Real(st) : st.done[t] = Funs
Flag(st, name, ok) == IF ok THEN st ELSE [st EXCEPT !.bad = @ \cup {name}]

\* ---- computation (C07) -----------------------------------------------------
Call(st, e) ==
    LET a == Flag(st, "C07 OneProcessPerTile", st.owner[e.t] \in {-1, e.r})
        b == Flag(a, "C07 ExactlyOnce", e.f \notin st.called[e.t])
        c == Flag(b, "C07 CutBeforeComputed", e.ready = 1)
    IN [c EXCEPT !.owner[e.t] = IF @ = -1 THEN e.r ELSE @,
                 !.called[e.t] = @ \cup {e.f}, !.begun = TRUE]
Ret(st, e) == [st EXCEPT !.done[e.t] = @ \cup {e.f}]

\* ---- the output folder (C09) -------------------------------------------------
Prepare(st, e) ==
    Flag(Flag(st, "C09 FirstProcessPrepares", e.r = 0),
         "C09 PreparedBeforeTiles", ~st.begun)
Change(st, e) ==
    CASE e.c \in {"dir", "stale"} -> Prepare(st, e)
      [] e.c = "tmp" /\ e.k = "new" -> [st EXCEPT !.begun = TRUE]
      [] e.c = "tmp" /\ e.k = "del" ->
            Flag(st, "C09 OnlyOwnTemporaries",
                 st.owner[e.t] = e.r \/ (st.owner[e.t] = -1 /\ e.t \in st.Empty))
      [] e.c \in {"res", "vrt", "other"} /\ e.k \in {"del", "rep"} ->
            Flag(st, "C09 NothingDeleted", FALSE)
      [] e.c = "m3" ->
            LET a == Flag(st, "C09 ConversionAfterComputation", AllDone(st))
                b == Flag(a, "C10 ConvertedOnce",
                          \/ e.k = "new" /\ st.conv[e.t] = -1
                          \/ e.k = "mod" /\ st.conv[e.t] = e.r)
                d == Flag(b, "C09 NothingDeleted", e.k \in {"new", "mod"})
            IN [d EXCEPT !.conv[e.t] = e.r]
      [] e.c = "max" ->
            LET a == Flag(st, "C09 ConversionAfterComputation", AllDone(st))
                b == Flag(a, "C10 ConvertedOnce",
                          \/ e.k = "new" /\ st.maxi[e.t] = -1
                          \/ e.k = "mod" /\ st.maxi[e.t] = e.r)
                d == Flag(b, "C09 NothingDeleted", e.k \in {"new", "mod"})
            IN [d EXCEPT !.maxi[e.t] = e.r]
      [] OTHER -> st

Exit(st, e) == [Flag(st, "ALL ProcessFails", e.ok = 1) EXCEPT !.ended = @ \cup {e.r}]

Step(st, e) ==
    CASE e.k = "call" -> Call(st, e)
      [] e.k = "ret" -> Ret(st, e)
      [] e.k = "exit" -> Exit(st, e)
      [] OTHER -> Change(st, e)

RECURSIVE Fold(_, _, _)
Fold(st, es, i) == IF i > Len(es) THEN st ELSE Fold(Step(st, es[i]), es, i + 1)

\* ---- the end of a run ---------------------------------------------------------
\* f: how it ended ("ok", or deadlock, leftover ...), stale things still there,
\* tiles with a shielding result, tiles in the folders M3 and M3_max and in the
\* two mosaics (sequences of tiles)
AsSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Listed(s, tiles) == AsSet(s) = tiles /\ NoDup(s)
Mosaic(s, tiles) == Listed(s, tiles)

Finish(st, n, f) ==
    LET a == Flag(st, "ALL EveryProcessEnds", f.how = "ok" /\ st.ended = 0..(n - 1))
        b == Flag(a, "C07 EveryTileComputed", AllDone(st))
        c == Flag(b, "C09 EmptiedFirst", f.stale = 0)
        d == Flag(c, "C10 EveryTileConverted",
                  Listed(f.m3, AsSet(f.shielded)) /\ Listed(f.max, AsSet(f.shielded)))
        g == Flag(d, "C10 MosaicOfCombined", Mosaic(f.vrt, AsSet(f.m3)))
    IN Flag(g, "C10 MosaicOfMaximum", Mosaic(f.vrtmax, AsSet(f.max)))
=============================================================================
