------------------------------ MODULE TopoDefs ------------------------------
(***************************************************************************)
(* The topographic multiplier: the lines of a tile, the hills of a line,   *)
(* the hill-shape multiplier and its corrections.                          *)
(* Lengths D (cell spacing) in 10^-2 m, heights in m, factors in 10^-6     *)
(* (lines) or 10^-5 (tiles).                                               *)
(***************************************************************************)
EXTENDS TerrainDefs

\* ---- lines ---------------------------------------------------------------
Inside(c, nr, nc) == c[1] >= 0 /\ c[1] < nr /\ c[2] >= 0 /\ c[2] < nc
Down(c, d) == <<c[1] - DR(d), c[2] - DC(d)>>
Up(c, d) == <<c[1] + DR(d), c[2] + DC(d)>>
RECURSIVE LineFrom(_, _, _, _)
LineFrom(c, d, nr, nc) ==
    IF Inside(c, nr, nc) THEN <<c>> \o LineFrom(Down(c, d), d, nr, nc) ELSE <<>>
Cells(nr, nc) == (0..(nr - 1)) \X (0..(nc - 1))
Starts(d, nr, nc) == {c \in Cells(nr, nc) : ~Inside(Up(c, d), nr, nc)}
Lines(d, nr, nc) == {LineFrom(c, d, nr, nc) : c \in Starts(d, nr, nc)}
\* index of a cell counted down the columns, as the code numbers them
Idx(c, nr) == c[2] * nr + c[1]

\* ---- hills: the maximal strictly rising stretches <<valley, ridge>> -------
\* y is a sequence; positions count from 0
At(y, i) == y[i + 1]
Hills(y) ==
    { <<v, r>> \in (0..(Len(y) - 1)) \X (0..(Len(y) - 1)) :
        /\ v < r
        /\ \A i \in v..(r - 1) : At(y, i) < At(y, i + 1)
        /\ (v = 0 \/ At(y, v - 1) >= At(y, v))
        /\ (r = Len(y) - 1 \/ At(y, r) >= At(y, r + 1)) }
Flat(y) == \A i \in 1..Len(y) : y[i] = y[1]
\* the first change of elevation is a fall
FallsFirst(y) == \E i \in 1..(Len(y) - 1) :
                    y[i] > y[i + 1] /\ \A j \in 1..(i - 1) : y[j] = y[j + 1]
FallsLast(y) == \E i \in 1..(Len(y) - 1) :
                    y[i] > y[i + 1] /\ \A j \in (i + 1)..(Len(y) - 1) : y[j] = y[j + 1]
Ridges(y) == {h[2] : h \in Hills(y)} \cup (IF FallsFirst(y) THEN {0} ELSE {})
Valleys(y) == {h[1] : h \in Hills(y)} \cup (IF FallsLast(y) THEN {Len(y) - 1} ELSE {})

\* ---- fixed point -----------------------------------------------------------
\* floor(10^6 a / b), a, b >= 0, b < 2*10^8, result < 2*10^9
RECURSIVE DigitsOf(_, _, _, _)
DigitsOf(q, rem, b, k) ==
    IF k = 0 THEN q ELSE DigitsOf(q * 10 + (rem * 10) \div b, (rem * 10) % b, b, k - 1)
Div6(a, b) == DigitsOf(a \div b, a % b, b, 6)
\* a b / 10^6 for 0 <= a, b <= 2*10^6
Mul6(a, b) == ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div 1000000
One6 == 1000000

\* ---- the multiplier of a hill ------------------------------------------------
Height(y, h) == At(y, h[2]) - At(y, h[1])
\* L1 in 10^-3 m; exact when D is a multiple of 5
L1m(y, h, D) == FMax((18 * (h[2] - h[1]) * D) \div 10, 400 * Height(y, h))
L2m(y, h, D) == 4 * L1m(y, h, D)
\* escarpment factor: how steep the ground falls behind the ridge, over the
\* length of the climb
Esc6(y, h) ==
    LET n == h[2] - h[1]
        b == FMin(Len(y) - 1, h[2] + n)
        nb == b - h[2]
        hb == At(y, h[2]) - At(y, b)
        s == IF 3 * FAbs(hb) * n >= 6 * nb * Height(y, h) THEN 3000000
             ELSE Div6(3 * FAbs(hb) * n, 2 * nb * Height(y, h))      \* 1.5 |ratio|
        e == IF hb >= 0 THEN 2500000 - s ELSE 2500000 + s
    IN IF nb = 0 THEN One6 ELSE FMax(500000, FMin(3000000, e))

\* low or flat hills do not count
Counts(y, h, D) == Height(y, h) >= 10 /\ h[2] - h[1] >= 2
                   /\ 2000 * Height(y, h) >= (h[2] - h[1]) * D
\* H / (3.5 (10 + L1)), exact L1 in mm
Ampl6(y, h, D) == DigitsOf((2000 * Height(y, h)) \div (7 * (10000 + L1m(y, h, D))),
                           (2000 * Height(y, h)) % (7 * (10000 + L1m(y, h, D))),
                           7 * (10000 + L1m(y, h, D)), 6)
Cap(m) == FMin(m, 1710000)
\* behind the crest of a steep, nearly symmetric hill
Steep(y, h, D) == 10000 * Height(y, h) > 45 * (h[2] - h[1]) * D
NearSym(e) == FAbs(e - One6) < 200000
Behind(y, h, D, k) == 4 * (k - h[2]) * D < 100 * Height(y, h)

\* what the multiplier of a hill depends on
Shape(y, h, D) ==
    LET H == Height(y, h)
        e == Esc6(y, h)
    IN [valley |-> h[1], ridge |-> h[2], height |-> H, l2 |-> L2m(y, h, D), esc |-> e,
        ampl |-> Ampl6(y, h, D), counts |-> Counts(y, h, D),
        steep |-> Steep(y, h, D) /\ NearSym(e),
        \* so close to a threshold that rounding decides
        edge |-> \/ FAbs(FAbs(e - One6) - 200000) <= 3
                 \/ D % 100 # 0 /\ ( \/ 2000 * H = (h[2] - h[1]) * D
                                     \/ 10000 * H = 45 * (h[2] - h[1]) * D )]
\* the rule for the back of a steep hill is applied to cell k
IsSpecial(s, D, k) == k > s.ridge /\ s.steep /\ 4 * (k - s.ridge) * D < 100 * s.height
EdgeCase(s, D, k) == s.edge \/ (D % 100 # 0 /\ 4 * FAbs(k - s.ridge) * D = 100 * s.height)

\* multiplier of cell k for a hill of shape s (10^-6)
HillAt(s, D, k) ==
    LET q == Div6(FAbs(s.ridge - k) * D * 10, s.l2)
        qe == Div6(q, s.esc)
    IN IF k <= s.ridge THEN IF q < One6 THEN Cap(One6 + Mul6(s.ampl, One6 - q)) ELSE One6
       ELSE IF qe >= One6 THEN One6
       ELSE IF IsSpecial(s, D, k) THEN One6 + Mul6(710000, One6 - qe)
       ELSE Cap(One6 + Mul6(s.ampl, One6 - qe))
RECURSIVE SetMax(_)
SetMax(s) == LET x == CHOOSE x \in s : TRUE
             IN IF s = {x} THEN x ELSE FMax(x, SetMax(s \ {x}))
\* over all hills that count
LineAtS(D, k, shapes) == SetMax({One6} \cup {HillAt(s, D, k) : s \in shapes})
Shapes(y, D) == {Shape(y, h, D) : h \in Hills(y)}
LineAt(y, D, k) == LineAtS(D, k, {s \in Shapes(y, D) : s.counts})

\* ---- corrections (10^-5) -----------------------------------------------------
\* m (1.25 - 0.25 m) for 1 < m < 1.4, 0.9 m above
Conserved(m) == IF m <= 100000 THEN m
                ELSE IF m >= 140000 THEN (9 * m) \div 10
                ELSE LET p == 125000 - m \div 4 IN ((m \div 100) * (p \div 10)) \div 100
                         + ((m % 100) * (p \div 10)) \div 10000
                         + ((m \div 100) * (p % 10)) \div 1000
\* e in 1/4 m: above 500 m times 1 + 0.00015 e
Tas(m, e) == IF e <= 2000 THEN m ELSE LET k == (e * 15) \div 4
                 IN m + ((m \div 100) * k) \div 1000 + ((m % 100) * k) \div 100000
InTasmania(x, y) == x > 1430000 /\ y > 400000    \* 10^-4 degrees, y = south latitude

Around(i, j, nr, nc) == {<<a, b>> \in {i - 1, i, i + 1} \X {j - 1, j, j + 1} :
                            a >= 1 /\ a <= nr /\ b >= 1 /\ b <= nc}
RECURSIVE SumCells(_, _)
SumCells(v, s) == IF s = {} THEN 0
                  ELSE LET c == CHOOSE c \in s : TRUE IN v[c[1]][c[2]] + SumCells(v, s \ {c})
Smooth(v, i, j, nr, nc) == LET s == Around(i, j, nr, nc) IN SumCells(v, s) \div Cardinality(s)
=============================================================================
