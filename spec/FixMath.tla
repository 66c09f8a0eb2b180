------------------------------ MODULE FixMath -------------------------------
(***************************************************************************)
(* Fixed-point arithmetic within TLC's 32-bit integers.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

FAbs(x) == IF x < 0 THEN -x ELSE x
FMin(a, b) == IF a < b THEN a ELSE b
FMax(a, b) == IF a > b THEN a ELSE b

\* 10^7 ln(1 + 2^-k), k = 1..24
LnTab == <<4054651, 2231436, 1177830, 606246, 307717, 155042, 77821, 38986,
           19512, 9761, 4882, 2441, 1221, 610, 305, 153, 76, 38, 19, 10, 5, 2, 1, 1>>
Ln2 == 6931472

RECURSIVE LnStep(_, _, _), Norm(_, _)
\* y in [2^29, 2^30]: multiply by (1 + 2^-k) while it stays below 2^30
LnStep(y, acc, k) ==
    IF k > 24 THEN acc
    ELSE LET z == y + y \div (2 ^ k)
         IN IF z <= 1073741824 THEN LnStep(z, acc - LnTab[k], k + 1)
            ELSE LnStep(y, acc, k + 1)
\* the number m scaled up to [2^29, 2^30) and the number of doublings
Norm(m, e) == IF m >= 536870912 THEN <<m, e>> ELSE Norm(2 * m, e + 1)

\* 10^7 ln(m), for an integer m >= 1 (below 2^30)
LnInt(m) ==
    LET ne == Norm(m, 0)
    IN LnStep(ne[1], Ln2, 1) + (29 - ne[2]) * Ln2

\* 10^6 ln(m / 10^6)
Ln6(m) == (LnInt(m) - 138155106) \div 10

\* a product of a number scaled by 10^6 (|x| < 4*10^7) with 0.abcd
Mul4(x, ab, cd) == (x * ab) \div 100 + (x * cd) \div 10000
=============================================================================
