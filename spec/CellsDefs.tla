----------------------------- MODULE CellsDefs ------------------------------
(***************************************************************************)
(* Values on a grid of h x w cells, evaluated at the corners of the blocks *)
(* that d bisections leave, and interpolated bilinearly within them.       *)
(* Blocks of one bisection share the middle row and column.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the intervals <<first, last>> that d bisections of n cells from i0 leave
RECURSIVE Leaves(_, _, _)
Leaves(d, i0, n) ==
    IF d = 0 THEN {<<i0, i0 + n - 1>>}
    ELSE LET m == n \div 2
         IN Leaves(d - 1, i0, m + 1) \cup Leaves(d - 1, i0 + m, n - m)
In(i, iv) == iv[1] <= i /\ i <= iv[2]
Len0(iv) == iv[2] - iv[1]

\* the bilinear value at (i, j), as a fraction <<numerator, denominator>>
Bilinear(F(_, _), R, C, i, j) ==
    LET h == IF Len0(R) = 0 THEN 1 ELSE Len0(R)
        w == IF Len0(C) = 0 THEN 1 ELSE Len0(C)
        s == i - R[1]
        t == j - C[1]
    IN <<(h - s) * ((w - t) * F(R[1], C[1]) + t * F(R[1], C[2]))
         + s * ((w - t) * F(R[2], C[1]) + t * F(R[2], C[2])), h * w>>
FracEq(a, b) == a[1] * b[2] = b[1] * a[2]
=============================================================================
