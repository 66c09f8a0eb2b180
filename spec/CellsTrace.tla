----------------------------- MODULE CellsTrace -----------------------------
(***************************************************************************)
(* Judges grids interpolated by recursive bisection.                       *)
(*                                                                         *)
(* r.kind = "fun": interpolate_grid(depth d, origin (oi, oj), shape h x w) *)
(* of the integer function f (matrix, of the whole grid) into the grid out *)
(* (10^-5, Missing where nothing was written), of H x W cells.             *)
(* r.kind = "geo": get_pixel_size_grids of a raster of h x w cells on an   *)
(* ellipsoid of flattening F0: lat the latitudes (radians) of the cell     *)
(* centres per row, dx, dy the cell sizes (radians), xs, ys the grids (in  *)
(* equatorial radii) at the rows ri and the columns rj.                    *)
(* r.kind = "utm": the same of a raster in a transverse Mercator           *)
(* projection of scale 0.9996 on its central meridian: east the distances  *)
(* from that meridian per column, size the cell size (in equatorial        *)
(* radii).                                                                 *)
(* r.exc = 1: an error was raised.                                         *)
(***************************************************************************)
EXTENDS TraceRec, CellsDefs, GeodesicDefs

Missing == -2000000000
Close(a, b) == a - b <= 2 /\ b - a <= 2

FunRight(r) ==
    LET Rs == Leaves(r.d, r.oi, r.h)
        Cs == Leaves(r.d, r.oj, r.w)
        Inside(i, j) == i >= r.oi /\ i < r.oi + r.h /\ j >= r.oj /\ j < r.oj + r.w
        Expected(i, j) ==
            LET R == CHOOSE iv \in Rs : In(i, iv)
                C == CHOOSE iv \in Cs : In(j, iv)
                v == Bilinear(LAMBDA a, b : r.f[a + 1][b + 1], R, C, i, j)
            IN (v[1] * 100000) \div v[2]
    IN \A i \in 0..r.H - 1, j \in 0..r.W - 1 :
          IF Inside(i, j) THEN r.out[i + 1][j + 1] # Missing /\ Close(r.out[i + 1][j + 1], Expected(i, j))
          ELSE r.out[i + 1][j + 1] = Missing

\* WGS84 with b = 6356752.3142 m
F0 == <<0, 33, 5281, 671, 8309, 8961>>
E2 == BMul(F0, BSub(BInt(2), F0))
\* 1 - e^2 sin^2
Q(lat) == BSub(BOne, BMul(E2, BSq(BSin(lat))))
\* a cell of d radians is as wide as its parallel's arc, less what the geodesic cuts off ...
Width(lat, d) ==
    LET arc == BMul(BMul(BCos(lat), BRsqrt1(Q(lat))), d)
    IN BMul(arc, BSub(BOne, BOver(BSq(BMul(BSin(lat), d)), 24)))
\* ... and as high as its meridian's arc
Height(lat, d) == BMul(BMul(BSub(BOne, E2), BMul(BRsqrt1(Q(lat)), BRecip1(Q(lat)))), d)
\* cell size in the transverse Mercator projection: divided by its scale, 0.9996 (1 + x^2 / 2 R^2)
Mercator(x, size) == BMul(size, BRecip1(BMul(<<0, 9996, 0, 0, 0, 0>>, BAdd(BOne, BOver(BSq(x), 2)))))

BLin(t, n, a, b) == IF n = 0 THEN a ELSE BAdd(a, BOver(BTimes(BSub(b, a), t), n))
Rel == <<0, 0, 50, 0, 0, 0>>      \* 5 * 10^-7
RelM == <<0, 0, 500, 0, 0, 0>>
\* bilinear between the corners of the quadrant, where the size is S(row, column)
SizesRight(r, S, g, rel) ==
    LET Rs == Leaves(1, 0, r.h)
        Cs == Leaves(1, 0, r.w)
        corner == TLCEval([i \in UNION {{R[1], R[2]} : R \in Rs} |-> [j \in UNION {{C[1], C[2]} : C \in Cs} |-> TLCEval(S[i, j])]])
    IN \A p \in DOMAIN r.ri, q \in DOMAIN r.rj :
          LET i == r.ri[p]
              j == r.rj[q]
              R == CHOOSE iv \in Rs : In(i, iv)
              C == CHOOSE iv \in Cs : In(j, iv)
              v == BLin(i - R[1], Len0(R), BLin(j - C[1], Len0(C), corner[R[1]][C[1]], corner[R[1]][C[2]]),
                                           BLin(j - C[1], Len0(C), corner[R[2]][C[1]], corner[R[2]][C[2]]))
          IN BNear(g[p][q], v, BMul(v, rel))
SameAlongRow(g) == \A i \in DOMAIN g : \A j \in DOMAIN g[i] : BNear(g[i][j], g[i][1], BMul(g[i][1], Rel))
Shape(r, g) == Len(g) = Len(r.ri) /\ \A i \in DOMAIN g : Len(g[i]) = Len(r.rj)

Rows(r) == 0..r.h - 1
Cols(r) == 0..r.w - 1
Clauses(r) ==
    IF r.exc = 1 THEN {"NoError"}
    ELSE IF r.kind = "fun" THEN Cl("Interpolated", FunRight(r))
    ELSE IF ~(Shape(r, r.xs) /\ Shape(r, r.ys)) THEN {"EveryCell"}
    ELSE IF r.kind = "geo" THEN
        Cl("Width", SizesRight(r, [i \in Rows(r), j \in Cols(r) |-> Width(r.lat[i + 1], r.dx)], r.xs, Rel))
        \cup Cl("Height", SizesRight(r, [i \in Rows(r), j \in Cols(r) |-> Height(r.lat[i + 1], r.dy)], r.ys, Rel))
        \cup Cl("SameAlongRow", SameAlongRow(r.xs) /\ SameAlongRow(r.ys))
    ELSE LET M == [i \in Rows(r), j \in Cols(r) |-> Mercator(r.east[j + 1], r.size)]
         IN Cl("Width", SizesRight(r, M, r.xs, RelM)) \cup Cl("Height", SizesRight(r, M, r.ys, RelM))

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
