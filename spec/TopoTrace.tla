------------------------------ MODULE TopoTrace -----------------------------
(***************************************************************************)
(* Judges the topographic computations of the real code.                   *)
(* "path":  nr, nc, n, dir, out (indices counted down the columns)         *)
(* "sweep": nr, nc, dirs (sequence), lines (per direction: sequence of     *)
(*          lines of cells <<row, col>>)                                   *)
(* "peaks": y, ridges, valleys          (positions from 0)                 *)
(* "pairs": y, D, pairs <<valley, ridge>> whose multiplier was computed    *)
(* "line":  y, D, out (10^-6)                                              *)
(* "cons":  m, out (10^-5);  "tas": m, e (1/4 m), out (10^-5)              *)
(* "tile":  nr, nc, x, y (10^-4 deg), e (1/4 m), own, raw, outs (per       *)
(*          direction, 10^-5), gone: cells without elevation (e = 0 there) *)
(***************************************************************************)
EXTENDS TopoDefs, TraceRec

NA == -2000000000
MatOK(m, nr, nc) == Len(m) = nr /\ \A q \in 1..nr : Len(m[q]) = nc
Set(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

PathClauses(r) ==
    LET l == LineFrom(<<r.n % r.nr, r.n \div r.nr>>, r.dir, r.nr, r.nc)
    IN Cl("StraightDownwind", r.out = [k \in 1..Len(l) |-> Idx(l[k], r.nr)])

SweepClauses(r) ==
    UNION {LET ls == [k \in 1..Len(r.lines[q]) |-> [i \in 1..Len(r.lines[q][k]) |->
                        <<r.lines[q][k][i][1], r.lines[q][k][i][2]>>]]
           IN Cl("EveryCellOnceUpwindToDownwind",
                 /\ Set(ls) = Lines(r.dirs[q], r.nr, r.nc)
                 /\ Len(ls) = Cardinality(Set(ls))) : q \in 1..Len(r.dirs)}
    \cup Cl("EightDirections", Set(r.dirs) = Directions /\ Len(r.dirs) = 8)

\* the same of a big tile, a line given as <<row, column, step, step, length>>
RunsClauses(r) ==
    UNION {LET dr == -DR(r.dirs[q])
               dc == -DC(r.dirs[q])
               upwind(i, j) == i - dr < 0 \/ i - dr >= r.nr \/ j - dc < 0 \/ j - dc >= r.nc
               steps(x, s, n) == IF s = 0 THEN 100000 ELSE IF s > 0 THEN n - x ELSE x + 1
               len(i, j) == LET a == steps(i, dr, r.nr) b == steps(j, dc, r.nc) IN IF a < b THEN a ELSE b
               starts == {c \in {0, r.nr - 1} \X (0..(r.nc - 1)) : upwind(c[1], c[2])}
                         \cup {c \in (0..(r.nr - 1)) \X {0, r.nc - 1} : upwind(c[1], c[2])}
               ls == r.lines[q]
           IN Cl("EveryCellOnceUpwindToDownwind",
                 /\ Len(ls) = Cardinality(starts)
                 /\ {<<ls[k][1], ls[k][2]>> : k \in 1..Len(ls)} = starts
                 /\ \A k \in 1..Len(ls) :
                       /\ ls[k][5] = len(ls[k][1], ls[k][2])
                       /\ ls[k][5] > 1 => ls[k][3] = dr /\ ls[k][4] = dc) : q \in 1..Len(r.dirs)}
    \cup Cl("EightDirections", Set(r.dirs) = Directions /\ Len(r.dirs) = 8)

PeaksClauses(r) ==
    Cl("RidgesWhereClimbsEnd", Sorted(r.ridges) /\ Set(r.ridges) = Ridges(r.y))
    \cup Cl("ValleysWhereClimbsStart", Sorted(r.valleys) /\ Set(r.valleys) = Valleys(r.y))

PairsClauses(r) ==
    LET ps == {<<p[1], p[2]>> : p \in Set(r.pairs)} IN
    Cl("OnlyHillsOfTheLine", ps \subseteq Hills(r.y))
    \cup Cl("EveryHillCounted",
            \A h \in Hills(r.y) : Counts(r.y, h, r.D) => h \in ps)

LineClauses(r) ==
    LET all == TLCEval(Shapes(r.y, r.D))
        hs == TLCEval({s \in all : s.counts})
        edge(k) == \E s \in all : EdgeCase(s, r.D, k)
    IN IF Len(r.out) # Len(r.y) THEN {"ShapeOfResult"} ELSE
       Cl("HillShape", \A k \in 0..(Len(r.y) - 1) :
             FAbs(r.out[k + 1] - LineAtS(r.D, k, hs)) <= 12 \/ edge(k))
       \cup Cl("Between1And171", \A k \in 1..Len(r.y) : r.out[k] >= One6 /\ r.out[k] <= 1710001)
       \cup Cl("OneOutsideAllHills", hs = {} => \A k \in 1..Len(r.y) :
             r.out[k] = One6 \/ edge(k - 1))

ConsClauses(r) ==
    Cl("Conservatism", \A i \in 1..Len(r.m) : FAbs(r.out[i] - Conserved(r.m[i])) <= 6)
TasClauses(r) ==
    Cl("TasmaniaFactor", \A i \in 1..Len(r.m) : FAbs(r.out[i] - Tas(r.m[i], r.e[i])) <= 8)
    \cup Cl("LowGroundUnchanged", \A i \in 1..Len(r.m) : r.e[i] <= 2000 => FAbs(r.out[i] - r.m[i]) <= 1)

TileClauses(r) ==
    LET c0 == r.own[1]
        r0 == r.own[3]
        oc == r.own[2] - c0
        orr == r.own[4] - r0
        tas == InTasmania(r.x, r.y)
        gone == TLCEval({r.gone[k] : k \in 1..Len(r.gone)})
        miss(i, j) == <<r0 + i - 1, c0 + j - 1>> \in gone
        One(d) ==
          IF d \notin DOMAIN r.outs THEN {"AllDirectionsWritten"} ELSE
          \* a threshold of some hill cannot be told from the cell size known
          IF d \notin DOMAIN r.raw THEN IF Note("ambiguous_directions") THEN {} ELSE {} ELSE
          LET o == r.outs[d]
              v == [i \in 1..r.nr |-> [j \in 1..r.nc |->
                     LET m == Conserved(r.raw[d][i][j]) IN IF tas THEN Tas(m, r.e[i][j]) ELSE m]]
          IN IF ~MatOK(o, orr, oc) THEN {"ShapeWithoutBuffer"} ELSE
             Cl("NoneWithoutElevation", \A i \in 1..orr, j \in 1..oc :
                  (o[i][j] = NA) <=> miss(i, j))
             \cup Cl("CorrectedAndSmoothed", \A i \in 1..orr, j \in 1..oc :
                  miss(i, j) \/ FAbs(o[i][j] - Smooth(v, r0 + i, c0 + j, r.nr, r.nc)) <= (IF tas THEN 30 ELSE 25))
             \cup Cl("FlatGroundIsOne",
                  (~tas /\ r.gone = <<>> /\ \A i \in 1..r.nr, j \in 1..r.nc : r.e[i][j] = r.e[1][1]) =>
                     \A i \in 1..orr, j \in 1..oc : FAbs(o[i][j] - 100000) <= 1)
    IN UNION {One(d) : d \in Directions}
       \cup Cl("OnlyTopographicFilesAdded", r.extra = 0)

Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"}
    ELSE CASE r.kind = "path"  -> PathClauses(r)
           [] r.kind = "sweep" -> SweepClauses(r)
           [] r.kind = "runs"  -> RunsClauses(r)
           [] r.kind = "peaks" -> PeaksClauses(r)
           [] r.kind = "pairs" -> PairsClauses(r)
           [] r.kind = "line"  -> LineClauses(r)
           [] r.kind = "cons"  -> ConsClauses(r)
           [] r.kind = "tas"   -> TasClauses(r)
           [] r.kind = "tile"  -> TileClauses(r)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
