------------------------------- MODULE Shield -------------------------------
(***************************************************************************)
(* Shielding of a tile: the directions are computed one after the other,   *)
(* in any order, from the initial factors `init`.  `cur` is the array the  *)
(* computation of a direction works on: a copy (Copy) or, in the faulty    *)
(* variant, the initial factors themselves when there is nothing to        *)
(* average (size 0).  A one-row tile keeps the state small.                *)
(***************************************************************************)
EXTENDS ShieldDefs

CONSTANTS Copy,      \* BOOLEAN: each direction works on its own array
          N,         \* columns
          MaxSize    \* kernel sizes 0..MaxSize

Vals == {85000, 100000}
Faces == {"n", "ne", "e", "none"}

VARIABLES init0, init, size, slope, face, out
vars == <<init0, init, size, slope, face, out>>

Init == /\ init \in [1..N -> Vals] /\ init0 = init
        /\ size \in 0..MaxSize
        /\ slope \in {0, 8000, 20000} /\ face \in Faces
        /\ out = [d \in {} |-> <<>>]

Blur(v, d) == IF size = 0 THEN v
              ELSE [c \in 1..N |-> LET s == SectorSum(<<v>>, d, size, 0, c - 1, 1, N, One5)
                                   IN s[1] \div s[2]]
Res(v, d) == LET b == Blur(v, d) IN [c \in 1..N |-> Final(b[c], slope, face = d)]

Compute(d) ==
    /\ d \notin DOMAIN out
    /\ out' = [x \in DOMAIN out \cup {d} |-> IF x = d THEN Res(init, d) ELSE out[x]]
    /\ init' = IF Copy \/ size > 0 THEN init ELSE Res(init, d)
    /\ UNCHANGED <<init0, size, slope, face>>
Next == \E d \in {"w", "n", "ne"} : Compute(d)
Spec == Init /\ [][Next]_vars

Independent == \A d \in DOMAIN out : out[d] = Res(init0, d)
Bounded == \A d \in DOMAIN out : \A c \in 1..N : out[d][c] >= 72000 /\ out[d][c] <= 100000

\* --- laws of the sectors and of the slope and conservatism rules ----------
Rot(p) == <<p[2], -p[1]>>           \* quarter turn clockwise
RotDir == [n |-> "e", e |-> "s", s |-> "w", w |-> "n", ne |-> "se", se |-> "sw", sw |-> "nw", nw |-> "ne"]
SectorLaws ==
    size = 0 \/ \A d \in Directions :
      LET s == Sector(d, size) IN
        /\ s # {} /\ <<0, 0>> \notin s
        /\ \A p \in s : /\ FAbs(p[1]) <= size /\ FAbs(p[2]) <= size
                        /\ p[1] * DR(d) + p[2] * DC(d) > 0
                        /\ Diagonal(d) => p[1] * DR(d) > 0 /\ p[2] * DC(d) > 0
        /\ Sector(RotDir[d], size) = {Rot(p) : p \in s}
        \* symmetric about the direction of the wind
        /\ ~Diagonal(d) => s = {<<p[1] * (IF DR(d) = 0 THEN -1 ELSE 1),
                                  p[2] * (IF DC(d) = 0 THEN -1 ELSE 1)>> : p \in s}
        /\ \A e \in Directions \ {d} : s # Sector(e, size)
Ms == {72000, 85000, 89999, 90000, 95000, 100000}
RuleLaws ==
    /\ \A m \in Ms : /\ Conserve(m) <= m
                     /\ SlopeRule(m, 3270, TRUE) = m /\ SlopeRule(m, 12300, TRUE) = One5
                     /\ \A s \in {0, 3000, 5000, 9000, 12299, 30000} :
                          /\ SlopeRule(m, s, FALSE) = m
                          /\ SlopeRule(m, s, TRUE) >= m /\ SlopeRule(m, s, TRUE) <= One5
    /\ \A a, b \in Ms : a < b => Conserve(a) <= Conserve(b)
    /\ Conserve(One5) = One5

\* every non-zero descent has one sector, or two next to each other
AspectLaws ==
    \A e, n \in -6..6 : (e # 0 \/ n # 0) =>
       LET s == SectorsOf(e, n, 0) IN
          /\ s # {} /\ Cardinality(s) <= 2
          /\ \A d \in s : DC(d) * e - DR(d) * n > 0
          /\ \A d \in Directions : d \in s <=> RotDir[d] \in SectorsOf(n, -e, 0)
=============================================================================
