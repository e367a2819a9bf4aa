------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* The temperature map of the star, what the observer sees of it, and the  *)
(* planet in front of or behind it.                                        *)
(*                                                                         *)
(* A star is a record with at least                                        *)
(*   teff rad u1 u2 gdt   photosphere, radius, limb darkening, granulation *)
(*   spots facs           sequences of features                            *)
(* G is a grid table: [lat |-> seq, lon |-> seq, area |-> seq, ...].       *)
(***************************************************************************)
EXTENDS Geometry, Features, FiniteSets

Edge == "1e-7"        \* radians; a point this close to a border may fall on either side
TLow == "2300"        \* range of temperatures a facula may take
THigh == "3900"

N(G) == Len(G.lat)
ClipT(t) == Clamp(t, TLow, THigh)

----------------------------------------------------------------------------
(* Spots.  in = certainly inside, may = inside or on the border.           *)
InCap(d, r) == d \prec (r (-) Edge)
MayCap(d, r) == d \preceq (r (+) Edge)

\* temperatures that certainly / possibly cover point p, photosphere aside
SpotDist(st, G) == Force([i \in 1..Len(st.spots) |->
   Force([p \in 1..N(G) |-> Dist(st.spots[i].lat, st.spots[i].lon, G.lat[p], G.lon[p])])])
SpotRad(st) == Force([i \in 1..Len(st.spots) |-> SpotRadius(st.spots[i], st.rad)])
UmbraRad(st) == Force([i \in 1..Len(st.spots) |-> UmbraRadius(st.spots[i], st.rad)])

\* the coolest of what covers point p, in the specification's own map
MapAt(st, D, R, U, p) ==
  RMinSeq(<<st.teff>> \o
          [i \in 1..Len(st.spots) |->
             IF D[i][p] \prec U[i] THEN RMin(st.spots[i].tu, st.spots[i].tp)
             ELSE IF D[i][p] \prec R[i] THEN st.spots[i].tp ELSE st.teff])
SpotMap(st, G) ==
  LET D == SpotDist(st, G)  R == SpotRad(st)  U == UmbraRad(st)
  IN Force([p \in 1..N(G) |-> MapAt(st, D, R, U, p)])

\* t is the coolest of what covers point p, borders decided either way
CoolestAt(st, D, R, U, p, t) ==
  /\ t \preceq (st.teff (+) "1e-6")
  /\ \A i \in 1..Len(st.spots) :
       /\ InCap(D[i][p], R[i]) => t \preceq (st.spots[i].tp (+) "1e-6")
       /\ InCap(D[i][p], U[i]) => t \preceq (st.spots[i].tu (+) "1e-6")
  /\ \/ Near(t, st.teff)
     \/ \E i \in 1..Len(st.spots) :
          \/ MayCap(D[i][p], R[i]) /\ Near(t, st.spots[i].tp)
          \/ MayCap(D[i][p], U[i]) /\ Near(t, st.spots[i].tu)

\* share of the surface certainly / possibly under a spot
CoverLow(st, G) ==
  LET D == SpotDist(st, G)  R == SpotRad(st)
  IN RSum([p \in 1..N(G) |-> IF \E i \in 1..Len(st.spots) : InCap(D[i][p], R[i])
                             THEN G.area[p] ELSE "0"]) (/) RSum(G.area)
CoverHigh(st, G) ==
  LET D == SpotDist(st, G)  R == SpotRad(st)
  IN RSum([p \in 1..N(G) |-> IF \E i \in 1..Len(st.spots) : MayCap(D[i][p], R[i])
                             THEN G.area[p] ELSE "0"]) (/) RSum(G.area)

----------------------------------------------------------------------------
(* Faculae, painted over the spots in order.                               *)
FacDist(f, G) == Force([p \in 1..N(G) |-> Dist(f.lat, f.lon, G.lat[p], G.lon[p])])
FacPix(f, G, rad) ==
  LET D == FacDist(f, G)  r == FacRadius(f, rad)
  IN {p \in 1..N(G) : D[p] \preceq r}
FacEdge(f, G, rad) ==
  LET D == FacDist(f, G)  r == FacRadius(f, rad)
  IN \E p \in 1..N(G) : RClose(D[p], r, "0", Edge)

\* how far into the pixels sorted from the limb the wall reaches
WallReach(f, n, ang) == WallShare(f, ang, Overlap) (.) RInt(n - 1)
MuEps == "1e-11"
\* rank of pixel p among pix, by angle from disk center
RankLow(mu, pix, p) == Cardinality({q \in pix : mu[q] \prec (mu[p] (-) MuEps)})
RankHigh(mu, pix, p) == Cardinality({q \in pix : mu[q] \preceq (mu[p] (+) MuEps)}) - 1
MustWall(mu, pix, p, h) == RInt(RankHigh(mu, pix, p)) \preceq (h (-) "1e-6")
MustFloor(mu, pix, p, h) == RInt(RankLow(mu, pix, p)) \succ (h (+) "1e-6")

WallT(st, f) == ClipT(st.teff (+) WallDTr(f))
FloorT(st, f) == ClipT(st.teff (+) FloorDTr(f))
FacOK(f) == ~RClose(WallDTr(f), FloorDTr(f), "0", "0.25")

\* the specification's own overlay
RECURSIVE Overlay(_, _, _, _, _, _)
Overlay(st, G, mu, v, m, i) ==
  IF i > Len(st.facs) THEN m
  ELSE LET f == st.facs[i]
           pix == FacPix(f, G, st.rad)
           h == WallReach(f, Cardinality(pix), Dist(v.lat, v.lon, f.lat, f.lon))
           wt == WallT(st, f)  ft == FloorT(st, f)
           m2 == IF pix = {} THEN m
                 ELSE Force([p \in 1..N(G) |->
                        IF p \notin pix THEN m[p]
                        ELSE IF RInt(RankLow(mu, pix, p)) \preceq h THEN wt ELSE ft])
       IN Overlay(st, G, mu, v, m2, i + 1)
FullMap(st, G, v) == Overlay(st, G, Mus(v.lat, v.lon, G.lat, G.lon), v, SpotMap(st, G), 1)

----------------------------------------------------------------------------
(* What the observer at v = [lat, lon] sees.                               *)
LD(st, mu) == ("1" (-) (st.u1 (.) ("1" (-) mu))) (-) (st.u2 (.) Sq("1" (-) mu))
Weight(st, mu, area) == IF mu \preceq "0" THEN "0" ELSE (area (.) mu) (.) LD(st, mu)
Weights(st, G, v) ==
  LET mu == Mus(v.lat, v.lon, G.lat, G.lon)
  IN Force([p \in 1..N(G) |-> Weight(st, mu[p], G.area[p])])

\* share of the visible disk at temperature (label) t, given map m; c masks (1 = all)
ShareOf(w, m, t, c) ==
  RSum([p \in 1..Len(w) |-> IF RClose(RCent(m[p]), t, "0", "1e-6") THEN w[p] (.) c[p] ELSE "0"])
     (/) RSum(w)
Labels(m) == {RCent(m[p]) : p \in 1..Len(m)}

\* granulation moves the share g of the quiet photosphere to teff - gdt
GranT(st) == RCent(st.teff (-) st.gdt)
WithGran(share, st, t, g) ==
  LET phot == share[RCent(st.teff)]
      same == RClose(GranT(st), st.teff, "0", "1e-6")
  IN IF same THEN share[t]
     ELSE IF RClose(t, st.teff, "0", "1e-6") THEN phot (.) ("1" (-) g)
     ELSE IF RClose(t, GranT(st), "0", "1e-6") THEN share[t] (+) (phot (.) g)
     ELSE share[t]

Ones(n) == [p \in 1..n |-> "1"]
\* fractions by temperature: <<total, covered>>, each a function from labels
Fractions(st, G, v, mask, g) ==
  LET m == FullMap(st, G, v)
      w == Weights(st, G, v)
      L == Labels(m) \cup {RCent(st.teff), GranT(st)}
      s1 == [t \in L |-> ShareOf(w, m, t, Ones(N(G)))]
      s2 == [t \in L |-> ShareOf(w, m, t, mask)]
  IN <<[t \in L |-> WithGran(s1, st, t, g)], [t \in L |-> WithGran(s2, st, t, g)]>>

----------------------------------------------------------------------------
(* The planet.  pl = [a, r, phase, inc]: orbit and planet radius in km,     *)
(* phase (pi = middle of the transit) and inclination (pi/2 = edge on).     *)
PlX(st, pl) == (pl.a (/) st.rad) (.) RSin(pl.phase (-) Pi)
PlY(st, pl) == ((pl.a (/) st.rad) (.) RCos(pl.phase (-) Pi)) (.) RCos(pl.inc)
PlR(st, pl) == pl.r (/) st.rad
PlD(st, pl) == RSqrt(Sq(PlX(st, pl)) (+) Sq(PlY(st, pl)))
\* +1 in front of the star, -1 behind, 0 at quadrature (up to rounding)
Side(pl) == IF RCos(pl.phase) \succ "1e-12" THEN -1
            ELSE IF RCos(pl.phase) \prec "-1e-12" THEN 1 ELSE 0
Behind(st, pl) == "1" (-) Overlap(PlD(st, pl), PlR(st, pl))
PlanetSeen(st, pl) == IF Side(pl) = -1 THEN Behind(st, pl) ELSE "1"

\* extent of a point on the sky, toward the limb
PixR(G, p, mu) == ("2" (.) RSqrt(G.area[p])) (.) mu
Slack == "0.012"
\* planet to point, on the sky
PlDist(st, pl, v, G, p) ==
  RSqrt(Sq(ProjX(v.lat, v.lon, G.lat[p], G.lon[p]) (-) PlX(st, pl))
        (+) Sq(ProjY(v.lat, v.lon, G.lat[p], G.lon[p]) (-) PlY(st, pl)))
\* how much of a point the planet may cover
MaskOK(st, pl, v, G, mu, p, c) ==
  LET d == PlDist(st, pl, v, G, p)
      ext == "2" (.) PixR(G, p, mu)
  IN /\ Within(c, "-1e-9", "1.000001")
     /\ mu \prec "-1e-9" => RClose(c, "0", "0", "1e-9")
     /\ (mu \succ "1e-9" /\ (d (+) ext) (+) Slack \prec PlR(st, pl)) => Near(c, "1")
     /\ d \succ ((PlR(st, pl) (+) ext) (+) Slack) => RClose(c, "0", "0", "1e-9")
=============================================================================
