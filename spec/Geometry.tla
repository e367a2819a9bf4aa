------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Geometry of the sphere and of the sky plane, and the two kinds of       *)
(* surface grid.  A grid is a record                                       *)
(*     [kind |-> "spiral", n |-> N]                                        *)
(*     [kind |-> "rect", nlat |-> N, nlon |-> M]                           *)
(* and its points are numbered 1..NPix(g) in the order the implementation  *)
(* flattens its arrays (longitude major for "rect").                       *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

\* cosine of the angle between two directions
CosBetween(lat1, lon1, lat2, lon2) ==
  (RSin(lat1) (.) RSin(lat2)) (+) ((RCos(lat1) (.) RCos(lat2)) (.) RCos(lon1 (-) lon2))

Angle(lat1, lon1, lat2, lon2) == RAcos(Clamp(CosBetween(lat1, lon1, lat2, lon2), "-1", "1"))

\* great-circle distance, well conditioned for small distances
Dist(lat1, lon1, lat2, lon2) ==
  LET h == Sq(RSin("0.5" (.) (lat1 (-) lat2)))
           (+) ((RCos(lat1) (.) RCos(lat2)) (.) Sq(RSin("0.5" (.) (lon1 (-) lon2))))
  IN "2" (.) RAsin(RSqrt(Clamp(h, "0", "1")))

\* orthographic projection onto the sky, north up, seen from (lat0, lon0)
ProjX(lat0, lon0, lat, lon) == RCos(lat) (.) RSin(lon (-) lon0)
ProjY(lat0, lon0, lat, lon) ==
  (RCos(lat0) (.) RSin(lat)) (-) ((RSin(lat0) (.) RCos(lat)) (.) RCos(lon (-) lon0))

\* fraction of a disk of radius r, centered at distance d of the center of the
\* unit disk, that lies inside the unit disk (r <= 1)
Overlap(d, r) ==
  IF d \succeq ("1" (+) r) THEN "0"
  ELSE IF d \preceq ("1" (-) r) THEN "1"
  ELSE LET d1 == ((Sq(d) (-) Sq(r)) (+) "1") (/) ("2" (.) d)
           d2 == ((Sq(d) (+) Sq(r)) (-) "1") (/) ("2" (.) d)
           seg(q) == RAcos(Clamp(q, "-1", "1")) (-) (q (.) RSqrt(RMax("0", "1" (-) Sq(q))))
       IN Clamp((seg(d1) (+) (Sq(r) (.) seg(d2 (/) r))) (/) (Pi (.) Sq(r)), "0", "1")

\* share of the hemisphere an observer sees that a cap of angular radius a covers,
\* its center at the angle c0 from disk center: the integral over |c| <= 90 degrees of
\* 2 cos(c) sqrt(a^2 - (c - c0)^2), over 2 pi; c = c0 + a sin(theta), Simpson's rule
CapShare(c0, a) ==
  LET lo == RMax(RNeg(a), RNeg(HalfPi) (-) c0)
      hi == RMin(a, HalfPi (-) c0)
      M == 100
  IN IF ~(hi \succ lo) THEN "0"
     ELSE LET t1 == RAsin(Clamp(lo (/) a, "-1", "1"))
              h == (RAsin(Clamp(hi (/) a, "-1", "1")) (-) t1) (/) RInt(M)
              f(k) == LET t == t1 (+) (h (.) RInt(k))
                      IN (Sq(a) (.) RCos(c0 (+) (a (.) RSin(t)))) (.) Sq(RCos(t))
              w(k) == IF k = 0 \/ k = M THEN "1" ELSE IF k % 2 = 1 THEN "4" ELSE "2"
          IN (RSum([k \in 1..(M + 1) |-> w(k - 1) (.) f(k - 1)]) (.) h) (/) ("3" (.) Pi)

----------------------------------------------------------------------------
NPix(g) == IF g.kind = "spiral" THEN g.n ELSE g.nlat * g.nlon
GShape(g) == IF g.kind = "spiral" THEN <<g.n>> ELSE <<g.nlon, g.nlat>>

\* rectangular grid: latitudes from pole to pole, longitudes around the circle
RectLat(g, p) == (Pi (.) (RInt((p - 1) % g.nlat) (/) RInt(g.nlat - 1))) (-) HalfPi
RectLon(g, p) == TwoPi (.) (RInt((p - 1) \div g.nlat) (/) RInt(g.nlon))

\* spiral grid: equal steps in sin(latitude), golden-angle steps in longitude
Golden == "0.5" (.) ("1" (+) RSqrt("5"))
SpiralLat(g, p) == RAsin("1" (-) (("2" (.) (RInt(p - 1) (+) "0.5")) (/) RInt(g.n)))
SpiralLon(g, p) ==
  LET t == RInt(p - 1) (/) Golden
  IN TwoPi (.) (t (-) RInt(RFloor(t)))

GridLat(g, p) == IF g.kind = "spiral" THEN SpiralLat(g, p) ELSE RectLat(g, p)
GridLon(g, p) == IF g.kind = "spiral" THEN SpiralLon(g, p) ELSE RectLon(g, p)
\* as sequences (forced once)
GridLats(g) == Force([p \in 1..NPix(g) |-> GridLat(g, p)])
GridLons(g) == Force([p \in 1..NPix(g) |-> GridLon(g, p)])

\* share of the sphere each point stands for, given the points' latitudes
Areas(g, lats) ==
  IF g.kind = "spiral" THEN Force([p \in 1..g.n |-> "1" (/) RInt(g.n)])
  ELSE LET c == Force([p \in 1..NPix(g) |-> RMax("0", RCos(lats[p]))])
           t == RSum(c)
       IN Force([p \in 1..NPix(g) |-> c[p] (/) t])

\* cosine of the angle from disk center, per point
Mus(lat0, lon0, lats, lons) ==
  Force([p \in 1..Len(lats) |-> CosBetween(lat0, lon0, lats[p], lons[p])])
=============================================================================
