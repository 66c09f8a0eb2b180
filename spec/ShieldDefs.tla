----------------------------- MODULE ShieldDefs -----------------------------
(***************************************************************************)
(* The shielding multiplier: upwind sector, slope correction, removal of   *)
(* conservatism, and slope and aspect of an elevation tile.                *)
(* Multipliers are in 10^-5, angles in 10^-3 degrees.                      *)
(***************************************************************************)
EXTENDS TerrainDefs

\* cells (offsets in rows and columns) over which a cell is averaged, size >= 1.
\* x steps along the direction the wind comes from, y steps across it
Card(size) == {<<k, 0>> : k \in 1..size} \cup {<<k, y>> : k \in 2..size, y \in {-1, 1}}
Diag(size) == {<<a, b>> \in (1..size) \X (1..size) : a + b <= size + 1}
Sector(d, size) ==
    CASE d = "n"  -> {<<-p[1], p[2]>> : p \in Card(size)}
      [] d = "s"  -> {<<p[1], p[2]>>  : p \in Card(size)}
      [] d = "w"  -> {<<p[2], -p[1]>> : p \in Card(size)}
      [] d = "e"  -> {<<p[2], p[1]>>  : p \in Card(size)}
      [] d = "ne" -> {<<-p[1], p[2]>> : p \in Diag(size)}
      [] d = "nw" -> {<<-p[1], -p[2]>> : p \in Diag(size)}
      [] d = "se" -> {<<p[1], p[2]>> : p \in Diag(size)}
      [] d = "sw" -> {<<p[1], -p[2]>> : p \in Diag(size)}

RECURSIVE SecSum(_, _, _, _, _, _, _)
SecSum(v, r, c, rows, cols, out, ps) ==
    IF ps = {} THEN 0
    ELSE LET p == CHOOSE x \in ps : TRUE
             i == r + p[1]
             j == c + p[2]
         IN (IF i < 0 \/ i >= rows \/ j < 0 \/ j >= cols THEN out ELSE v[i + 1][j + 1])
            + SecSum(v, r, c, rows, cols, out, ps \ {p})

\* <<sum, number>> over the sector of cell (r, c); `out` is the value of a cell
\* outside the raster
SectorSum(v, d, size, r, c, rows, cols, out) ==
    LET ps == Sector(d, size)
    IN <<SecSum(v, r, c, rows, cols, out, ps), Cardinality(ps)>>

One5 == 100000
LowSlope == 3270
UpSlope == 12300

\* correction for slope of a factor m, on ground facing the wind or not
SlopeRule(m, slope, facing) ==
    IF ~facing \/ slope <= LowSlope THEN m
    ELSE IF slope >= UpSlope THEN One5
    ELSE m + ((One5 - m) * (slope - LowSlope)) \div (UpSlope - LowSlope)

\* v^2 for |v| <= 10^6 (10 in units of 10^-5)
Sq5(v) == LET a == v \div 1000
              b == v % 1000
          IN a * a * 10 + (2 * a * b) \div 100 + (b * b) \div 100000
Conserve(m) == IF m < 90000 THEN (9 * m) \div 10 ELSE Sq5(m)
Final(m, slope, facing) == Conserve(SlopeRule(m, slope, facing))

\* --- slope and aspect ---------------------------------------------------
Refl(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
El(z, i, j) == z[Refl(i, Len(z))][Refl(j, Len(z[1]))]
\* Sobel sums: rise towards the east, rise towards the south
SobX(z, i, j) == (El(z, i-1, j+1) + 2*El(z, i, j+1) + El(z, i+1, j+1))
               - (El(z, i-1, j-1) + 2*El(z, i, j-1) + El(z, i+1, j-1))
SobY(z, i, j) == (El(z, i+1, j-1) + 2*El(z, i+1, j) + El(z, i+1, j+1))
               - (El(z, i-1, j-1) + 2*El(z, i-1, j) + El(z, i-1, j+1))

\* sectors of a descent by `e` towards the east and `n` towards the north, when
\* both are known to within `tol`: ratio of the components against tan 22.5
Abs2(x) == FAbs(x)
SectorsOf(e, n, tol) ==
    LET ae == FAbs(e)
        an == FAbs(n)
        t == tol * 12000
        ew == an * 10000 < 4143 * ae + t          \* may be mostly east-west
        ns == ae * 10000 < 4143 * an + t
        dg == an * 10000 + t >= 4142 * ae /\ ae * 10000 + t >= 4142 * an
        E1 == IF e > -tol THEN {"e"} ELSE {}
        W1 == IF e < tol THEN {"w"} ELSE {}
        N1 == IF n > -tol THEN {"n"} ELSE {}
        S1 == IF n < tol THEN {"s"} ELSE {}
    IN (IF ew THEN E1 \cup W1 ELSE {})
       \cup (IF ns THEN N1 \cup S1 ELSE {})
       \cup (IF dg THEN {a \o b : a \in N1 \cup S1, b \in E1 \cup W1} ELSE {})
SectorCode == [n |-> 1, ne |-> 2, e |-> 3, se |-> 4, s |-> 5, sw |-> 6, w |-> 7, nw |-> 8]
=============================================================================
