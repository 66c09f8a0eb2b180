------------------------------ MODULE Geodesic ------------------------------
(***************************************************************************)
(* Walks along geodesics of the ellipsoid WGS84, to test the relation of   *)
(* GeodesicDefs against what is known of geodesics.  A walk starts at a    *)
(* latitude and azimuth of a lattice (in units of 15 degrees, latitudes from the south pole) and goes on  *)
(* by equal steps; each step starts anew from the point and direction the  *)
(* last one reached.                                                       *)
(*                                                                         *)
(* Fault: "none", or a wrong relation that must be refuted ("sphere":      *)
(* distances of the sphere; "longitude": longitudes of the sphere).        *)
(***************************************************************************)
EXTENDS GeodesicDefs, TLC

CONSTANTS Lats, Azis, StepLen, MaxSteps, Fault

VARIABLES lat, azi, n, at
vars == <<lat, azi, n, at>>

F0 == <<0, 33, 5281, 671, 8309, 8961>>    \* WGS84, b = 6356752.3142 m
Deg15 == <<0, 2617, 9938, 7799, 1494, 3653>>
Tol == <<0, 0, 0, 0, 1000, 0>>
\* a step, in equatorial radii / 100
StepS == BOver(BInt(StepLen), 100)
B0 == Reduced(F0, BTimes(Deg15, lat - 6))
Wrong(w, b, sa, ca, s) ==
    CASE Fault = "sphere" -> [Walk(BZero, b, sa, ca, s) EXCEPT !.sigma = s]
      [] Fault = "longitude" -> [w EXCEPT !.x = BSub(BMul(b.c, BCos(w.sigma)), BMul(BMul(b.s, BSin(w.sigma)), ca)),
                                          !.y = BMul(BSin(w.sigma), sa)]
      [] OTHER -> w
Go(b, sa, ca, s) == LET w == Walk(F0, b, sa, ca, s) IN IF Fault = "none" THEN w ELSE Wrong(w, b, sa, ca, s)
\* turns the point (x, y) by the longitude of (c, s)
Turn(w, c, s) == [w EXCEPT !.x = BSub(BMul(w.x, c), BMul(w.y, s)), !.y = BAdd(BMul(w.x, s), BMul(w.y, c))]
Straight == Go(B0, BSin(BTimes(Deg15, azi)), BCos(BTimes(Deg15, azi)), BMul(StepS, BInt(n)))

Init ==
    /\ lat \in Lats /\ azi \in Azis /\ n = 0
    /\ at = [x |-> B0.c, y |-> BZero, z |-> B0.s, sigma |-> BZero,
             e |-> BMul(B0.c, BSin(BTimes(Deg15, azi))), n |-> BMul(B0.c, BCos(BTimes(Deg15, azi)))]
Step ==
    /\ n < MaxSteps
    /\ n' = n + 1
    /\ LET q == BRsqrt(BAdd(BSq(at.x), BSq(at.y)))
           c == BMul(q, BAdd(BSq(at.x), BSq(at.y)))
       IN at' = TLCEval(Turn(Go([s |-> at.z, c |-> c], BMul(at.e, q), BMul(at.n, q), StepS), BMul(at.x, q), BMul(at.y, q)))
    /\ UNCHANGED <<lat, azi>>
Spec == Init /\ [][Step]_vars

Same(v, w) == BNear(v.x, w.x, Tol) /\ BNear(v.y, w.y, Tol) /\ BNear(v.z, w.z, Tol) /\ BNear(v.e, w.e, Tol) /\ BNear(v.n, w.n, Tol)
\* equal steps lead where the straight walk leads
Composes == n > 1 => Same(at, Straight)
OnTheSphere ==
    /\ BNear(BAdd(BAdd(BSq(at.x), BSq(at.y)), BSq(at.z)), BOne, Tol)
    /\ BNear(BAdd(BSq(at.e), BSq(at.n)), BAdd(BSq(at.x), BSq(at.y)), Tol)
\* along the equator the longitude is the distance
Equator == lat = 6 /\ azi = 6 =>
    BNear(at.x, BCos(BMul(StepS, BInt(n))), Tol) /\ BNear(at.y, BSin(BMul(StepS, BInt(n))), Tol)
\* back the same way leads to the start
Return == n > 0 =>
    LET q == BRsqrt(BAdd(BSq(at.x), BSq(at.y)))
        c == BMul(q, BAdd(BSq(at.x), BSq(at.y)))
        w == Turn(Go([s |-> at.z, c |-> c], BNeg(BMul(at.e, q)), BNeg(BMul(at.n, q)), BMul(StepS, BInt(n))), BMul(at.x, q), BMul(at.y, q))
    IN BNear(w.x, B0.c, Tol) /\ BNear(w.y, BZero, Tol) /\ BNear(w.z, B0.s, Tol)
\* the quarter of the meridian of WGS84 is 10001965.729 m (in radii)
Quarter == <<1, 5681, 6414, 920, 3453, 0>>
Meridian == n = 0 /\ lat = 6 /\ azi = 0 =>
    LET w == Go(B0, BZero, BOne, Quarter) IN BNear(w.x, BZero, Mm) /\ BNear(w.y, BZero, Mm)
Right == Composes /\ OnTheSphere /\ Equator /\ Return /\ Meridian
=============================================================================
