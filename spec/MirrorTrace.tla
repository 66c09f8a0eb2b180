---------------------------- MODULE MirrorTrace -----------------------------
(***************************************************************************)
(* Judges two runs, of some ground and of the same with the inputs changed *)
(* one way.  A record:                                                     *)
(*   way, rows, cols    see MirrorDefs                                     *)
(*   parts  the layers compared: "mz", "ms", "mt", "m3" (per direction:    *)
(*          "mz_n", ...) and "max"                                         *)
(*   a, b   per layer, the values (10^-5) of the whole raster              *)
(***************************************************************************)
EXTENDS MirrorDefs, TraceRec

NA == -2000000000
Directions == {"n", "s", "e", "w", "ne", "nw", "se", "sw"}
Near(x, y) == IF x = NA \/ y = NA THEN x = y ELSE x - y <= 4 /\ y - x <= 4
Same(r, p, q) ==
    \A i \in 1..r.rows, j \in 1..r.cols :
        LET c == CellOf(r.way, <<i - 1, j - 1>>, r.rows, r.cols)
        IN Near(r.a[p][i][j], r.b[q][c[1] + 1][c[2] + 1])
Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    UNION {IF p = "max" THEN Cl("Same max (" \o r.way \o ")", Same(r, p, p))
           ELSE Cl("Same " \o p \o " (" \o r.way \o ")",
                   \A d \in Directions : Same(r, p \o "_" \o d, p \o "_" \o DirOf(r.way, d)))
           : p \in {r.parts[k] : k \in 1..Len(r.parts)}}

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
