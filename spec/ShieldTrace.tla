---------------------------- MODULE ShieldTrace -----------------------------
(***************************************************************************)
(* Judges the shielding computations of the real code.                     *)
(* "class":   tab (class, percent), v, nd (nodata class or none), out (10^-5)*)
(* "blur":    dir, size, v (integers; `one` is the value of 1), out (10^-3)*)
(* "combine": dir, m (10^-5), sl (10^-3 deg), as (sector code), out (10^-5)*)
(* "slope":   z (elevation), xm, ym (cell size per row, 10^-2 m), tan      *)
(*            (tangent of the slope, 10^-4), as (code)                     *)
(* "tile":    tab, v, own, g (10^-2 m), sl, fa (set of possible sectors    *)
(*            per cell, as a sequence), outs (per direction, 10^-5)        *)
(***************************************************************************)
EXTENDS ShieldDefs, TraceRec

NA == -2000000000
MatOK(m, nr, nc) == Len(m) = nr /\ \A q \in 1..nr : Len(m[q]) = nc

Known(tab, c) == \E q \in 1..Len(tab) : tab[q][1] = c
Percent(tab, c) == LET q == CHOOSE q \in 1..Len(tab) :
                              tab[q][1] = c /\ \A p \in (q + 1)..Len(tab) : tab[p][1] # c
                   IN tab[q][2]
Factor(tab, c) == IF Known(tab, c) THEN Percent(tab, c) * 1000 ELSE One5

ClassClauses(r) ==
    LET nr == Len(r.v)
        nc == Len(r.v[1])
    IN IF ~MatOK(r.out, nr, nc) THEN {"ShapeOfResult"} ELSE
       Cl("MissingWhereNodata",
          \A i \in 1..nr, j \in 1..nc : (r.v[i][j] = r.nd) <=> (r.out[i][j] = NA))
       \cup Cl("FactorOfClass",
          \A i \in 1..nr, j \in 1..nc : r.v[i][j] # r.nd =>
             FAbs(r.out[i][j] - Factor(r.tab, r.v[i][j])) <= 1)

BlurClauses(r) ==
    LET nr == Len(r.v)
        nc == Len(r.v[1])
    IN IF ~MatOK(r.out, nr, nc) THEN {"ShapeOfResult"} ELSE
       Cl("MeanOfUpwindSector",
          \A i \in Judged(r, "ri", nr), j \in Judged(r, "rj", nc) :
             LET s == SectorSum(r.v, r.dir, r.size, i, j, nr, nc, r.one)
             IN /\ r.out[i + 1][j + 1] # NA
                /\ FAbs(r.out[i + 1][j + 1] * s[2] - 1000 * s[1]) <= 3 * s[2])

CombineClauses(r) ==
    LET nr == Len(r.m)
        nc == Len(r.m[1])
        Facing(i, j) == r.as[i][j] = SectorCode[r.dir]
    IN IF ~MatOK(r.out, nr, nc) THEN {"ShapeOfResult"} ELSE
       Cl("MissingStaysMissing",
          \A i \in 1..nr, j \in 1..nc : (r.m[i][j] = NA) <=> (r.out[i][j] = NA))
       \cup Cl("SlopeAndConservatism",
          \A i \in 1..nr, j \in 1..nc : r.m[i][j] # NA =>
             FAbs(r.out[i][j] - Final(r.m[i][j], IF r.sl[i][j] = NA THEN 0 ELSE r.sl[i][j],
                                      Facing(i, j))) <= 6)

\* a * 10^7 / (8 b), |a| < 3 * 10^5
G4(a, b) == LET s == IF a < 0 THEN -1 ELSE 1
                n == FAbs(a)
                q == (n * 5000) \div b
                m == (n * 5000) % b
            IN s * (q * 25 + (m * 25) \div b)

SlopeClauses(r) ==
    LET nr == Len(r.z)
        nc == Len(r.z[1])
    IN IF ~MatOK(r.tan, nr, nc) \/ ~MatOK(r.as, nr, nc) THEN {"ShapeOfResult"} ELSE
       UNION { LET gx == G4(SobX(r.z, i, j), r.xm[i])
                   gy == G4(SobY(r.z, i, j), r.ym[i])
                   t == r.tan[i][j]
                   tol == 3 + (FMax(FAbs(gx), FAbs(gy)) * 2) \div 1000
               IN Cl("SlopeOfSobelGradient",
                     /\ t >= 0 /\ t < 46000
                     /\ FAbs(t * t - (gx * gx + gy * gy)) <= 2 * (t + tol) * tol)
                  \cup Cl("AspectOfDownhill",
                     (SobX(r.z, i, j) # 0 \/ SobY(r.z, i, j) # 0) /\ FMax(FAbs(gx), FAbs(gy)) > 4 * tol =>
                        \E d \in SectorsOf(-gx, gy, IF SobX(r.z, i, j) = 0 \/ SobY(r.z, i, j) = 0 THEN 1 ELSE tol) :
                           SectorCode[d] = r.as[i][j])
               : i \in {k + 1 : k \in Judged(r, "ri", nr)}, j \in {k + 1 : k \in Judged(r, "rj", nc)} }

Gs(g) == {g - 1 - g \div 2000, g, g + 1 + g \div 2000}
TileClauses(r) ==
    LET nr == Len(r.v)
        nc == Len(r.v[1])
        c0 == r.own[1]
        r0 == r.own[3]
        oc == r.own[2] - c0
        orr == r.own[4] - r0
        init == [i \in 1..nr |-> [j \in 1..nc |-> Factor(r.tab, r.v[i][j])]]
        sizes == {10000 \div g : g \in Gs(r.g)}
        M(d, s, i, j) == IF s = 0 THEN init[i][j]
                         ELSE LET q == SectorSum(init, d, s, i - 1, j - 1, nr, nc, One5)
                              IN q[1] \div q[2]
        One(d) ==
          IF d \notin DOMAIN r.outs THEN {"AllDirectionsWritten"} ELSE
          LET o == r.outs[d] IN
          IF ~MatOK(o, orr, oc) THEN {"ShapeWithoutBuffer"} ELSE
          Cl("SectorMeanCorrected",
             \E s \in sizes : \A i \in 1..orr, j \in 1..oc :
                LET m == M(d, s, r0 + i, c0 + j)
                    sl == r.sl[r0 + i][c0 + j]
                    fs == r.fa[r0 + i][c0 + j]
                    can == \E q \in 1..Len(fs) : fs[q] = d
                IN o[i][j] # NA /\
                   \/ can /\ FAbs(o[i][j] - Final(m, sl, TRUE)) <= 60
                   \/ (~can \/ Len(fs) > 1) /\ FAbs(o[i][j] - Final(m, sl, FALSE)) <= 60)
    IN UNION {One(d) : d \in Directions}
       \cup Cl("OnlyShieldingFilesAdded", r.extra = 0)
       \cup Cl("WorkingDirectoryKept", r.cwd = 1)

Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"}
    ELSE CASE r.kind = "class"   -> ClassClauses(r)
           [] r.kind = "blur"    -> BlurClauses(r)
           [] r.kind = "combine" -> CombineClauses(r)
           [] r.kind = "slope"   -> SlopeClauses(r)
           [] r.kind = "tile"    -> TileClauses(r)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
