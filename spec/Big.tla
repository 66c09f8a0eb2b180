-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Fixed-point numbers of 20 decimals within TLC's 32-bit integers.        *)
(*                                                                         *)
(* A number is a tuple <<x1, ..., x6>> standing for x1 + x2/10^4 + ... +   *)
(* x6/10^20, with 0 <= x2..x6 < 10^4; only x1 is negative in a negative    *)
(* number.  Numbers here stay below 10^4 in magnitude.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

\* the number with these (not normalised) limbs
BN(a, b, c, d, e, f) ==
    LET e2 == e + f \div Base
        d2 == d + e2 \div Base
        c2 == c + d2 \div Base
        b2 == b + c2 \div Base
    IN <<a + b2 \div Base, b2 % Base, c2 % Base, d2 % Base, e2 % Base, f % Base>>

BInt(n) == <<n, 0, 0, 0, 0, 0>>
BZero == BInt(0)
BOne == BInt(1)
BAdd(x, y) == BN(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5], x[6] + y[6])
BSub(x, y) == BN(x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5], x[6] - y[6])
BNeg(x) == BN(-x[1], -x[2], -x[3], -x[4], -x[5], -x[6])
BMul(x, y) ==
    LET g == x[2] * y[6] + x[3] * y[5] + x[4] * y[4] + x[5] * y[3] + x[6] * y[2]
    IN BN(x[1] * y[1],
          x[1] * y[2] + x[2] * y[1],
          x[1] * y[3] + x[2] * y[2] + x[3] * y[1],
          x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1],
          x[1] * y[5] + x[2] * y[4] + x[3] * y[3] + x[4] * y[2] + x[5] * y[1],
          x[1] * y[6] + x[2] * y[5] + x[3] * y[4] + x[4] * y[3] + x[5] * y[2] + x[6] * y[1] + g \div Base)
BSq(x) == BMul(x, x)
\* times and divided by a small integer (0 < n < 200000)
BTimes(x, n) == BN(x[1] * n, x[2] * n, x[3] * n, x[4] * n, x[5] * n, x[6] * n)
BOver(x, n) ==
    LET r1 == x[1] % n
        t2 == r1 * Base + x[2]
        t3 == (t2 % n) * Base + x[3]
        t4 == (t3 % n) * Base + x[4]
        t5 == (t4 % n) * Base + x[5]
        t6 == (t5 % n) * Base + x[6]
    IN <<x[1] \div n, t2 \div n, t3 \div n, t4 \div n, t5 \div n, t6 \div n>>
BNegative(x) == x[1] < 0
BAbs(x) == IF BNegative(x) THEN BNeg(x) ELSE x
BLeq(x, y) == ~BNegative(BSub(y, x))
BMax(x, y) == IF BLeq(x, y) THEN y ELSE x
\* |x - y| <= t
BNear(x, y, t) == BLeq(BAbs(BSub(x, y)), t)

\* sum of a sequence of numbers
RECURSIVE BSumFrom(_, _, _)
BSumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE BSumFrom(s, i + 1, BAdd(acc, s[i]))
BSum(s) == BSumFrom(s, 1, BZero)

\* reciprocal of x and of its root, by Newton's method from y
RECURSIVE BRecipN(_, _, _), BRsqrtN(_, _, _)
BRecipN(x, y, n) == IF n = 0 THEN y ELSE BRecipN(x, BMul(y, BSub(BInt(2), BMul(x, y))), n - 1)
BRsqrtN(x, y, n) == IF n = 0 THEN y ELSE BRsqrtN(x, BOver(BMul(y, BSub(BInt(3), BMul(x, BSq(y)))), 2), n - 1)
\* for x near 1 (0.8 to 1.2)
BRecip1(x) == BRecipN(x, BSub(BInt(2), x), 5)
BRsqrt1(x) == BRsqrtN(x, BOver(BSub(BInt(3), x), 2), 5)
BSqrt1(x) == BMul(x, BRsqrt1(x))
\* reciprocal of the root of any x from 10^-6 to 2
RECURSIVE BRsqrt(_)
BRsqrt(x) == IF BLeq(x, <<0, 5000, 0, 0, 0, 0>>) THEN BTimes(BRsqrt(BTimes(x, 4)), 2) ELSE BRsqrtN(x, BOver(BSub(BInt(3), x), 2), 9)

\* sine and cosine by Taylor's series, for |x| < 8
BTiny == <<-1, 9999, 9999, 9999, 9999, 9999>>
RECURSIVE BSeries(_, _, _, _, _)
BSeries(t, k, x2, acc, n) ==
    IF n = 0 \/ t = BZero \/ t = BTiny THEN acc
    ELSE LET u == BNeg(BOver(BMul(t, x2), (k + 1) * (k + 2)))
         IN BSeries(u, k + 2, x2, BAdd(acc, u), n - 1)
BSin(x) == BSeries(x, 1, BSq(x), x, 20)
BCos(x) == BSeries(BOne, 0, BSq(x), BOne, 20)
=============================================================================
