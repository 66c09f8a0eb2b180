----------------------------- MODULE SeamsTrace -----------------------------
(***************************************************************************)
(* Judges runs of the same rasters in different tiles.  A record:          *)
(*   W, H   size of the raster; g mean cell size (10^-2 m)                 *)
(*   win    part of the raster that is compared: x1, x2, y1, y2            *)
(*   whole  the values (10^-5) of the run in one tile: per kind            *)
(*          ("terrain_n", ..., "shielding_sw") rows of the part            *)
(*   tiles  limits of tiles of other tilings: own, with buffer (buf), and  *)
(*          what was written for them: at, the cells they cover, and v,    *)
(*          per kind rows of values                                        *)
(***************************************************************************)
EXTENDS SeamsDefs, TraceRec

NA == -2000000000
Kinds == {"terrain", "shielding"} \X Directions
Reach(k, g) == IF k[1] = "terrain" THEN TerrainReach(k[2], g) ELSE ShieldReach(g)
Tol(k) == IF k[1] = "terrain" THEN 2 ELSE 4
Near(a, b, k) == IF a = NA \/ b = NA THEN a = b ELSE FAbs(a - b) <= Tol(k)

Clauses(r) ==
    IF r.exc = 1 THEN {"Raises"} ELSE
    UNION { LET tile == r.tiles[q]
                at == tile.at
                cells == {c \in (r.win[3]..(r.win[4] - 1)) \X (r.win[1]..(r.win[2] - 1)) : In(tile.own, c[1], c[2])}
            IN Cl("CoversItsCells", at = tile.own) \cup
               (IF at # tile.own THEN {} ELSE
               UNION { LET reach == Reach(k, r.g)
                           a == tile.v[k[1] \o "_" \o k[2]]
                           w == r.whole[k[1] \o "_" \o k[2]]
                       IN Cl(IF k[1] = "terrain" THEN "TerrainOfAnyTiling" ELSE "ShieldingOfAnyTiling",
                             \A c \in cells : Covers(tile.buf, c[1], c[2], r.H, r.W, reach) =>
                                 Near(a[c[1] - Max2(at[3], r.win[3]) + 1][c[2] - Max2(at[1], r.win[1]) + 1],
                                      w[c[1] - r.win[3] + 1][c[2] - r.win[1] + 1], k))
                     : k \in Kinds })
          : q \in 1..Len(r.tiles) }

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
