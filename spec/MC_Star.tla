------------------------------ MODULE MC_Star ------------------------------
(***************************************************************************)
(* All histories, up to a length, of a star with a small catalog of        *)
(* features, grids, time steps and parameters.  Each property's invariant  *)
(* is checked in every reachable state; each transition's history is       *)
(* written out and replayed on the implementation.                         *)
(***************************************************************************)
EXTENDS Star, Json, IOUtils

Cat == JsonDeserialize("catalog.json")
Depth == CHOOSE n \in 0..9 : ToString(n) = IOEnv.DEPTH

\* whether queries are steps of the history, too
Asking == IOEnv.ASK = "1"
\* whether calls that are refused are steps, too
Refusing == IOEnv.ASK = "2"

\* whether copies are made
Saving == IOEnv.ASK = "3"

VARIABLES st, twin, hist
vars == <<st, twin, hist>>

Ix(seq) == 1..Len(seq)
\* the points of the grids, computed by the specification
Table(g) == LET la == GridLats(g) lo == GridLons(g)
            IN [lat |-> la, lon |-> lo, area |-> Areas(g, la), kind |-> g.kind]
G1 == Table(Cat.grids[1])
G2 == Table(Cat.grids[2])
G3 == Table(Cat.grids[3])
Pts(i) == IF i = 1 THEN G1 ELSE IF i = 2 THEN G2 ELSE G3

Tag(f, g) == [g |-> g] @@ f
\* features are built on other grids than the star's
Spot(i) == Tag(Cat.spots[i], 1 + (i % 3))
Fac(i) == Tag(Cat.facs[i], 1 + (i % 3))

Do(op, i) == [op |-> op, i |-> i]
Note(op, i) == hist' = Append(hist, Do(op, i))

Init == \E p \in Ix(Cat.stars), g \in {1, 2}, n \in {0, 2} :
  LET sp == IF n = 0 THEN <<>> ELSE <<Spot(1), Spot(2)>>
      fc == IF n = 0 THEN <<>> ELSE <<Fac(1)>>
  IN st = NewStar(Cat.stars[p], sp, fc, g) /\ twin = st /\ hist = <<[op |-> "star", i |-> p, g |-> g, n |-> n]>>

\* the twin goes through the same changes and is never asked anything
Both(F(_)) == st' = F(st) /\ twin' = F(twin)
Age(i) == Both(LAMBDA s : AgeStar(s, Cat.dts[i])) /\ Note("age", i)
AddSpot(i) == Both(LAMBDA s : AddSpots(s, <<Spot(i)>>)) /\ Note("spot", i)
AddFac(i) == Both(LAMBDA s : AddFacs(s, <<Fac(i)>>)) /\ Note("fac", i)
ToGrid(i) == i # st.g /\ Both(LAMBDA s : Regrid(s, i)) /\ Note("regrid", i)
Darken == st.u1 # "0.3" /\ Both(LAMBDA s : [s EXCEPT !.u1 = "0.3", !.u2 = "0.1"]) /\ Note("darken", 1)
Ask == Asking /\ hist[Len(hist)].op # "ask" /\ UNCHANGED <<st, twin>> /\ Note("ask", 1)
Refuse(i) == /\ Refusing /\ hist[Len(hist)].op # "refuse"
             /\ st' = Try(CoverageOK(Cat.refused[i]), AddSpots(st, <<Spot(1)>>), st) /\ UNCHANGED twin /\ Note("refuse", i)
\* 1, 2: the history goes on with a copy; 3: a copy goes its own way
Save(i) == /\ Saving /\ hist[Len(hist)].op # "save"
           /\ st' = (IF i < 3 THEN Copy(st) ELSE Forked(st, LAMBDA c : AgeStar(AddSpots(c, <<Spot(1)>>), Cat.dts[4])).original)
           /\ UNCHANGED twin /\ Note("save", i)

Next == /\ Len(hist) <= Depth
        /\ \/ \E i \in Ix(Cat.dts) : Age(i)
           \/ \E i \in Ix(Cat.spots) : AddSpot(i)
           \/ \E i \in Ix(Cat.facs) : AddFac(i)
           \/ \E i \in Ix(Cat.grids) : ToGrid(i)
           \/ Darken
           \/ Ask
           \/ \E i \in Ix(Cat.refused) : Refuse(i)
           \/ \E i \in 1..3 : Save(i)
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))

----------------------------------------------------------------------------
Pt == Pts(st.g)
Views == {Cat.views[i] : i \in Ix(Cat.views)}
Planets == {Cat.planets[i] : i \in Ix(Cat.planets)}
Masks == {[p \in 1..N(Pt) |-> "0"], [p \in 1..N(Pt) |-> IF p % 3 = 0 THEN "0.5" ELSE IF p % 3 = 1 THEN "1" ELSE "0"]}
Grans == {Cat.grans[i] : i \in Ix(Cat.grans)}
Vals(f) == LET D == DOMAIN f
               RECURSIVE go(_)
               go(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<f[x]>> \o go(S \ {x})
           IN go(D)
Close(x, y) == RClose(x, y, "1e-9", "1e-9")

\* C01  the fractions partition the disk, the covered part of each is a part of it
Inv_C01 == \A v \in Views, m \in Masks, g \in Grans :
  LET F == Fractions(st, Pt, v, m, g)
  IN /\ Close(RSum(Vals(F[1])), "1")
     /\ \A t \in DOMAIN F[1] : F[1][t] \succeq "-1e-12" /\ Within(F[2][t], "-1e-12", F[1][t] (+) "1e-12")
\* C02  what is on the far side does not count; a star without features is all photosphere
Inv_C02 == \A v \in Views :
  LET w == Weights(st, Pt, v)
      mu == Mus(v.lat, v.lon, Pt.lat, Pt.lon)
  IN /\ \A p \in 1..N(Pt) : w[p] \succeq "0" /\ (mu[p] \preceq "0" => Close(w[p], "0"))
     /\ RSum(w) \succ "0"
     /\ (st.spots = <<>> /\ st.facs = <<>>) => Close(Fractions(st, Pt, v, Ones(N(Pt)), "0")[1][RCent(st.teff)], "1")
\* C03  a larger mask covers more, a full mask everything
Inv_C03 == \A v \in Views :
  LET F == Fractions(st, Pt, v, Ones(N(Pt)), "0")
      m == CHOOSE x \in Masks : x[1] = "1"
      H == Fractions(st, Pt, v, m, "0")
  IN \A t \in DOMAIN F[1] : Close(F[2][t], F[1][t]) /\ H[2][t] \preceq (F[2][t] (+) "1e-12")
\* C07  only what is alive, in the order it came
Inv_C07 == /\ \A i \in Ix(st.spots) : ~SpotGone(st.spots[i])
           /\ \A i \in Ix(st.facs) : ~FacGone(st.facs[i])
           /\ \A i \in {2, 3}, k \in {2, 4} :
                LET a == AgeStar(AgeStar(st, Cat.dts[i]), Cat.dts[k])
                    b == AgeStar(st, Cat.dts[i] (+) Cat.dts[k])
                IN Len(a.spots) = Len(b.spots) /\ Len(a.facs) = Len(b.facs)
\* C08  independent of the order; never above the photosphere; another spot only cools
Reverse(s) == [i \in Ix(s) |-> s[Len(s) + 1 - i]]
Inv_C08 == LET m == SpotMap(st, Pt)
               r == SpotMap([st EXCEPT !.spots = Reverse(@)], Pt)
               k == SpotMap([st EXCEPT !.spots = <<Spot(3)>> \o @], Pt)
           IN \A p \in 1..N(Pt) : /\ Close(m[p], r[p]) /\ m[p] \preceq st.teff /\ k[p] \preceq m[p]
                                 /\ CoolestAt(st, SpotDist(st, Pt), SpotRad(st), UmbraRad(st), p, m[p])
\* C09  faculae touch nothing outside them, and everything inside
Inv_C09 == \A v \in Views :
  LET m == SpotMap(st, Pt)  f == FullMap(st, Pt, v)
      in(p) == {i \in Ix(st.facs) : p \in FacPix(st.facs[i], Pt, st.rad)}
  IN \A p \in 1..N(Pt) :
       IF in(p) = {} THEN f[p] = m[p]
       ELSE LET i == CHOOSE x \in in(p) : \A y \in in(p) : y <= x
            IN Close(f[p], WallT(st, st.facs[i])) \/ Close(f[p], FloorT(st, st.facs[i]))
\* C10  one grid
Inv_C10 == /\ st.sg = st.g /\ st.fg = st.g
           /\ \A i \in Ix(st.spots) : st.spots[i].g = st.g
           /\ \A i \in Ix(st.facs) : st.facs[i].g = st.g
\* C19  a star that is asked is the star that is not asked; what it answers is a function of its state
Inv_C19 == /\ st = twin
           /\ \A v \in Views : FullMap(st, Pt, v) = FullMap(twin, Pt, v)
\* C28  a star that refused calls is the star that was not called
Inv_C28 == st = twin /\ (\A i \in Ix(Cat.refused) : ~CoverageOK(Cat.refused[i]))
\* C30  a copy is the star, and a star is not its copy's
Inv_C30 == st = twin /\ \A v \in Views : FullMap(Copy(st), Pt, v) = FullMap(twin, Pt, v)
\* C31  parts of a step add up
Inv_C31 == \A i \in {2, 3}, k \in {2, 4} :
  LET a == AgeStar(AgeStar(st, Cat.dts[i]), Cat.dts[k])
      b == AgeStar(st, Cat.dts[i] (+) Cat.dts[k])
      m == SpotMap(a, Pt)  n == SpotMap(b, Pt)
  IN /\ SpotsSame(a.spots, b.spots) /\ FacsSame(a.facs, b.facs)
     /\ \A p \in 1..N(Pt) : Close(m[p], n[p])
\* C22  the bolometric mean lies between the extremes seen
Mean4(F) == RSqrt(RSqrt(RSum(Vals([t \in DOMAIN F |-> F[t] (.) Sq(Sq(t))])) (/) RSum(Vals(F))))
Inv_C22 == \A v \in Views :
  LET F == Fractions(st, Pt, v, Ones(N(Pt)), "0")[1]
      seen == {t \in DOMAIN F : F[t] \succ "1e-12"}
      a == Mean4(F)
  IN /\ \E t \in seen : t \preceq (a (+) "1e-6")
     /\ \E t \in seen : a \preceq (t (+) "1e-6")
\* C23  granulation only moves photosphere
Inv_C23 == \A v \in Views, g \in Grans :
  LET F == Fractions(st, Pt, v, Ones(N(Pt)), "0")[1]  H == Fractions(st, Pt, v, Ones(N(Pt)), g)[1]
      ph == RCent(st.teff)  c == GranT(st)
  IN \A t \in DOMAIN F :
       IF Close(ph, c) THEN Close(F[t], H[t])
       ELSE IF t = ph THEN Close(H[t], F[t] (.) ("1" (-) g))
       ELSE IF t = c THEN Close(H[t], F[t] (+) (F[ph] (.) g))
       ELSE Close(H[t], F[t])
\* C20  only ratios of lengths and of times matter
Longer(s, k) ==
  LET k2 == Sq(k) IN
  [s EXCEPT !.rad = @ (.) k,
            !.spots = Force([i \in Ix(@) |-> [@[i] EXCEPT !.a = @ (.) k2, !.amax = @ (.) k2, !.dr = @ (.) k2]]),
            !.facs = Force([i \in Ix(@) |-> [@[i] EXCEPT !.r = @ (.) k, !.rmax = @ (.) k, !.depth = @ (.) k, !.fmin = @ (.) k,
                                                       !.fs = @ (/) k, !.ws = @ (/) k]])]
Inv_C20 == \A v \in Views :
  LET z == Longer(st, "4")      \* a power of two: the same numbers up to their exponents
      a == FullMap(st, Pt, v)  b == FullMap(z, Pt, v)
  IN /\ \A p \in 1..N(Pt) : Close(a[p], b[p])
     /\ SpotsSame(AgeStar(z, "1").spots, Longer(AgeStar(st, "1"), "4").spots)
     /\ FacsSame(AgeStar(z, "1").facs, Longer(AgeStar(st, "1"), "4").facs)
\* C33  and nothing seen changes with the scale
Inv_C33 == \A v \in Views, g \in Grans :
  LET z == Longer(st, "0.25")
      F == Fractions(st, Pt, v, Ones(N(Pt)), g)  H == Fractions(z, Pt, v, Ones(N(Pt)), g)
  IN \A t \in DOMAIN F[1] : t \in DOMAIN H[1] /\ Close(F[1][t], H[1][t])
\* C21  turning the star and the observer together by a step of the grid turns the map
Turn(s, d) == [s EXCEPT !.spots = Force([i \in Ix(@) |-> [@[i] EXCEPT !.lon = @ (+) d]]),
                        !.facs = Force([i \in Ix(@) |-> [@[i] EXCEPT !.lon = @ (+) d]])]
Inv_C21 == Pt.kind = "rect" => \A v \in Views :
  LET c == Cat.grids[st.g]
      d == TwoPi (/) RInt(c.nlon)
      a == FullMap(st, Pt, v)
      b == FullMap(Turn(st, d), Pt, [v EXCEPT !.lon = @ (+) d])
      to(p) == (((((p - 1) \div c.nlat) + 1) % c.nlon) * c.nlat) + ((p - 1) % c.nlat) + 1
      \* points the borders of a feature run through may fall on either side
      edge(p) == \/ \E i \in Ix(st.spots) : LET x == Dist(st.spots[i].lat, st.spots[i].lon, Pt.lat[p], Pt.lon[p]) R == SpotRadius(st.spots[i], st.rad)
                                          IN RClose(x, R, "0", Edge) \/ RClose(x, UmbraRadius(st.spots[i], st.rad), "0", Edge)
                 \/ \E i \in Ix(st.facs) : \/ FacEdge(st.facs[i], Pt, st.rad)
                                           \/ RAbs(RAbs(Pt.lat[p]) (-) HalfPi) \preceq "1e-9"
  IN \A p \in 1..N(Pt) : edge(p) \/ Close(a[p], b[to(p)])
\* C32  the mirror image of the star is seen as the mirror image
Flip(x, ns, ew) == [x EXCEPT !.lat = IF ns THEN RNeg(@) ELSE @, !.lon = IF ew THEN RNeg(@) ELSE @]
Image(s, ns, ew) == [s EXCEPT !.spots = Force([i \in Ix(@) |-> Flip(@[i], ns, ew)]), !.facs = Force([i \in Ix(@) |-> Flip(@[i], ns, ew)])]
Inv_C32 == Pt.kind = "rect" => \A v \in Views, ns, ew \in BOOLEAN :
  LET c == Cat.grids[st.g]
      a == FullMap(st, Pt, v)
      b == FullMap(Image(st, ns, ew), Pt, Flip(v, ns, ew))
      to(p) == LET j == (p - 1) \div c.nlat  i == (p - 1) % c.nlat
               IN ((IF ew THEN (c.nlon - j) % c.nlon ELSE j) * c.nlat) + (IF ns THEN c.nlat - 1 - i ELSE i) + 1
      edge(p) == \/ \E i \in Ix(st.spots) : LET x == Dist(st.spots[i].lat, st.spots[i].lon, Pt.lat[p], Pt.lon[p]) R == SpotRadius(st.spots[i], st.rad)
                                          IN RClose(x, R, "0", Edge) \/ RClose(x, UmbraRadius(st.spots[i], st.rad), "0", Edge)
                 \/ \E i \in Ix(st.facs) : \/ FacEdge(st.facs[i], Pt, st.rad)
                                           \/ RAbs(RAbs(Pt.lat[p]) (-) HalfPi) \preceq "1e-9"
  IN \A p \in 1..N(Pt) : edge(p) \/ Close(a[p], b[to(p)])
=============================================================================
