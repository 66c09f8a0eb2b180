---------------------------- MODULE GeodesicDefs ----------------------------
(***************************************************************************)
(* Geodesics of an ellipsoid of revolution of flattening f and equatorial  *)
(* radius 1, from their differential equations on the auxiliary sphere     *)
(* (no series of Vincenty's is used).                                      *)
(*                                                                         *)
(* A geodesic leaves latitude phi1, longitude 0 with azimuth alpha.  On    *)
(* the auxiliary sphere it is a great circle leaving reduced latitude      *)
(* beta1 with azimuth alpha; at angle sigma along it                       *)
(*    sin beta = sin beta1 cos sigma + cos beta1 cos alpha sin sigma       *)
(*    ds       = (1 - f) sqrt(1 + e'^2 sin^2 beta) d sigma                 *)
(*    longitude = omega - f sin alpha0 Integral of                         *)
(*                 (2 - f) / (1 + (1 - f) sqrt(1 + e'^2 sin^2 beta))       *)
(* with omega the longitude on the sphere and sin alpha0 = cos beta1       *)
(* sin alpha.  The integrals are taken with Gauss' formula of 8 nodes.     *)
(***************************************************************************)
EXTENDS Big

GaussX == <<<<0, 198, 5507, 1751, 2318, 8416>>, <<0, 1016, 6676, 1293, 1866, 3020>>,
            <<0, 2372, 3379, 5041, 8355, 709>>, <<0, 4082, 8267, 8752, 1750, 9753>>,
            <<0, 5917, 1732, 1247, 8249, 247>>, <<0, 7627, 6620, 4958, 1644, 9291>>,
            <<0, 8983, 3323, 8706, 8133, 6980>>, <<0, 9801, 4492, 8248, 7681, 1584>>>>
GaussW == <<<<0, 506, 1426, 8145, 1881, 2958>>, <<0, 1111, 9051, 7226, 6872, 3527>>,
            <<0, 1568, 5332, 2938, 9436, 4367>>, <<0, 1813, 4189, 1689, 1809, 9148>>,
            <<0, 1813, 4189, 1689, 1809, 9148>>, <<0, 1568, 5332, 2938, 9436, 4367>>,
            <<0, 1111, 9051, 7226, 6872, 3527>>, <<0, 506, 1426, 8145, 1881, 2958>>>>

\* e'^2 = f (2 - f) / (1 - f)^2
Ep2(f) == LET q == BRecip1(BSub(BOne, f)) IN BMul(BMul(f, BSub(BInt(2), f)), BSq(q))

\* sine and cosine of the reduced latitude
Reduced(f, phi) ==
    LET sp == BMul(BSub(BOne, f), BSin(phi))
        cp == BCos(phi)
        q == BRsqrt1(BAdd(BSq(sp), BSq(cp)))
    IN [s |-> BMul(sp, q), c |-> BMul(cp, q)]

\* sqrt(1 + e'^2 sin^2 beta) at angle x of the geodesic with sin beta = p cos x + q sin x
Stretch(ep2, p, q, x) ==
    LET sb == BAdd(BMul(p, BCos(x)), BMul(q, BSin(x)))
    IN BSqrt1(BAdd(BOne, BMul(ep2, BSq(sb))))
Nodes(ep2, p, q, sigma) ==
    LET S(k) == Stretch(ep2, p, q, BMul(GaussX[k], sigma))
    IN <<S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8)>>
Gauss(sigma, F(_)) ==
    BMul(sigma, BSum(<<BMul(GaussW[1], F(1)), BMul(GaussW[2], F(2)), BMul(GaussW[3], F(3)), BMul(GaussW[4], F(4)),
                       BMul(GaussW[5], F(5)), BMul(GaussW[6], F(6)), BMul(GaussW[7], F(7)), BMul(GaussW[8], F(8))>>))

\* the angle sigma at which the distance is s (sb = s / (1 - f))
RECURSIVE SigmaFrom(_, _, _, _, _, _)
SigmaFrom(ep2, p, q, sb, sigma, n) ==
    LET t == Nodes(ep2, p, q, sigma)
        d == BSub(sb, Gauss(sigma, LAMBDA k : t[k]))
        next == BAdd(sigma, d)
    IN IF n = 0 \/ BLeq(BAbs(d), <<0, 0, 0, 10, 0, 0>>) THEN next
       ELSE SigmaFrom(ep2, p, q, sb, next, n - 1)

\* The point at distance s from reduced latitude b1 in the direction (sa, ca):
\* its position x, y, z on the sphere of reduced latitudes (longitude counted
\* from the start), and the azimuth there as the vector (e, n), whose length
\* is the cosine of the reduced latitude.
Walk(f, b1, sa, ca, s) ==
    LET ep2 == Ep2(f)
        q == BMul(b1.c, ca)
        sa0 == BMul(b1.c, sa)
        sb == BMul(s, BRecip1(BSub(BOne, f)))
        sigma == SigmaFrom(ep2, b1.s, q, sb, BMul(sb, BSub(BOne, BOver(ep2, 4))), 8)
        t == Nodes(ep2, b1.s, q, sigma)
        J == Gauss(sigma, LAMBDA k : BMul(BSub(BInt(2), f),
                 BOver(BRecip1(BOver(BAdd(BOne, BMul(BSub(BOne, f), t[k])), 2)), 2)))
        delta == BMul(BMul(f, sa0), J)
        ss == BSin(sigma)
        cs == BCos(sigma)
        x == BSub(BMul(b1.c, cs), BMul(BMul(b1.s, ss), ca))
        y == BMul(ss, sa)
        cd == BCos(delta)
        sd == BSin(delta)
    IN [x |-> BAdd(BMul(x, cd), BMul(y, sd)),
        y |-> BSub(BMul(y, cd), BMul(x, sd)),
        z |-> BAdd(BMul(b1.s, cs), BMul(q, ss)),
        e |-> sa0,
        n |-> BSub(BMul(q, cs), BMul(b1.s, ss)),
        sigma |-> sigma]
Direct(f, phi1, alpha, s) == Walk(f, Reduced(f, phi1), BSin(alpha), BCos(alpha), s)

\* position of latitude phi and longitude l on the sphere of reduced latitudes
Point(f, phi, l) ==
    LET b == Reduced(f, phi) IN [x |-> BMul(b.c, BCos(l)), y |-> BMul(b.c, BSin(l)), z |-> b.s, c |-> b.c]

Pi == <<3, 1415, 9265, 3589, 7932, 3846>>
\* 1 mm on an earth of 6378 km radius
Mm == <<0, 0, 0, 156, 7890, 0>>
\* one geodesic covers the distance s from phi1 in azimuth a1 to phi2 and
\* longitude difference l, and looks back in azimuth a2; within tol
Arrives(f, phi1, a1, s, phi2, l, a2, tol) ==
    LET d == Direct(f, phi1, a1, s)
        p == Point(f, phi2, l)
        \* direction at the end, the azimuth back being opposite
        fe == BNeg(BSin(a2))
        fn == BNeg(BCos(a2))
        cross == BSub(BMul(d.e, fn), BMul(d.n, fe))
        dot == BAdd(BMul(d.e, fe), BMul(d.n, fn))
    IN [here |-> BNear(d.x, p.x, tol) /\ BNear(d.y, p.y, tol) /\ BNear(d.z, p.z, tol),
        short |-> BLeq(d.sigma, BAdd(Pi, <<0, 0, 1, 0, 0, 0>>)) /\ ~BNegative(s),
        \* an error of the azimuth leads aside by that times the distance; and the
        \* end being off by tol turns the meridian there by tol tan(latitude)
        back |-> LET far == BMax(s, <<0, 10, 0, 0, 0, 0>>)
                 IN BLeq(BMul(BAbs(cross), far), BMul(tol, BAdd(p.c, far)))
                 /\ (BLeq(<<0, 1, 0, 0, 0, 0>>, p.c) => ~BNegative(dot))]
=============================================================================
