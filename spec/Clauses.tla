------------------------------ MODULE Clauses ------------------------------
(***************************************************************************)
(* For every property, the clauses an observed step has to satisfy.        *)
(* pre is the state before the step, e the recorded event:                 *)
(*   op ok err expect res post.                                            *)
(* Cxx(pre, e) is the set of names of the clauses the step violates.       *)
(***************************************************************************)
EXTENDS Star, Generators, Granules
CONSTANT Grids          \* grid name |-> its points, as the implementation gives them

V(ok, name) == IF ok THEN {} ELSE {name}
All(seq, P(_)) == \A i \in 1..Len(seq) : P(seq[i])
AbsClose(x, y, tol) == RClose(x, y, "0", tol)
Zero(x) == AbsClose(x, "0", "0")
Exactly(x, y) == AbsClose(x, y, "0")
TinyT == "0.006"        \* labels carry two decimals

\* an operation answers, or raises what it is documented to raise
Answers(e) ==
  IF e.expect = "" THEN V(e.ok, "raised " \o e.err)
  ELSE V(~e.ok /\ e.err = e.expect, "expected " \o e.expect)
Runs(e) == e.ok

\* what was asked for when objects were built is what they hold
Builds == {"star", "coll"}
BuiltPar(e, keys) == \A k \in keys : Near(e.post[k], e.res.given[k])
BuiltSpots(e) == SpotsSame(e.post.spots, e.res.given.spots)
BuiltFacs(e) == FacsSame(e.post.facs, e.res.given.facs)
FlareSame(x, y) == \A k \in {"fwhm", "e", "lat", "lon", "T", "tp"} : Near(x[k], y[k])
BuiltFlares(e) == Len(e.post.flares) = Len(e.res.given)
                  /\ \A i \in 1..Len(e.res.given) : FlareSame(e.post.flares[i], e.res.given[i])
Asked == "built with other values than asked for"

LabelIn(seq, t) == \E i \in 1..Len(seq) : AbsClose(seq[i].t, t, TinyT)
FracOf(seq, t) == RSum([i \in 1..Len(seq) |-> IF AbsClose(seq[i].t, t, "0.002") THEN seq[i].f ELSE "0"])
Fs(seq) == [i \in 1..Len(seq) |-> seq[i].f]

----------------------------------------------------------------------------
(* C01  coverage fractions are a partition of the visible disk             *)
C01(pre, e) ==
  IF e.op # "coverage" \/ ~Runs(e) THEN {} ELSE
  LET t == e.res.tot  c == e.res.cov
  IN V(All(t, LAMBDA x : x.f \succeq "-1e-12" /\ RFinite(x.f)), "negative fraction")
     \cup V(RClose(RSum(Fs(t)), "1", "0", "1e-9"), "fractions do not sum to one")
     \cup V(LabelIn(t, pre.teff) /\ LabelIn(c, pre.teff), "photosphere missing")
     \cup V(All(t, LAMBDA x : LabelIn(c, x.t)) /\ All(c, LAMBDA x : LabelIn(t, x.t)) /\ Len(t) = Len(c),
            "total and covered list different temperatures")
     \cup V(All(c, LAMBDA x : x.f \succeq "-1e-12" /\ x.f \preceq (FracOf(t, x.t) (+) "1e-9")),
            "covered part exceeds its total or is negative")

(* C02  each fraction is the foreshortened, limb-darkened share of its points *)
Expected(pre, e, mask, t) ==
  LET G == Grids[pre.g]
      w == Weights(pre, G, e.res.v)
      L == Labels(e.res.m1) \cup {RCent(pre.teff), GranT(pre), t}
  IN WithGran([x \in L |-> ShareOf(w, e.res.m1, x, mask)], pre, t, e.res.g)
C02(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "star" THEN V(BuiltPar(e, {"teff", "u1", "u2"}), Asked)
  ELSE IF e.op = "coverage" THEN
    LET G == Grids[pre.g]
    IN V(All(e.res.tot, LAMBDA x : AbsClose(x.f, Expected(pre, e, Ones(N(G)), RCent(x.t)), "1e-8")),
         "fraction is not the visible share of its temperature")
       \cup V(\A t \in Labels(e.res.m1) : LabelIn(e.res.tot, t), "temperature of the map missing")
  ELSE IF e.op = "mu" THEN
    LET G == Grids[pre.g]
        mu == Mus(e.res.v.lat, e.res.v.lon, G.lat, G.lon)
    IN V(\A p \in 1..N(G) : AbsClose(e.res.mu[p], mu[p], "1e-9"), "cosine of the angle from disk center")
       \cup V(\A p \in 1..N(G) : mu[p] \succ "1e-9" => AbsClose(e.res.ld[p], LD(pre, mu[p]), "1e-9"),
              "limb darkening")
       \cup V(\A p \in 1..N(G) : mu[p] \prec "-1e-9" => Zero(e.res.ld[p]) /\ Zero(e.res.pr[p]),
              "far side is not dark")
       \cup V(\A p \in 1..N(G) : mu[p] \succ "1e-9" => AbsClose(e.res.pr[p], mu[p], "1e-9"), "foreshortening")
       \cup V(\A p \in 1..N(G) : mu[p] \succ "1e-9" => AbsClose(e.res.ldm[p], LD(pre, mu[p]) (-) ("1" (-) mu[p]), "1e-9"),
              "limb darkening with foreshortening")
       \cup V(\A p \in 1..N(G) : mu[p] \prec "-1e-9" => Zero(e.res.ldm[p]), "far side is not dark")
       \cup V(Len(e.res.jac) = N(G) /\ \A p \in 1..N(G) : AbsClose(e.res.jac[p], G.area[p], "1e-9"), "areas of the points")
  ELSE {}

(* C03  what the planet covers                                             *)
MaskArea(G, v, mask) ==
  LET mu == Mus(v.lat, v.lon, G.lat, G.lon)
      w == Force([p \in 1..N(G) |-> RMax("0", mu[p]) (.) G.area[p]])
  IN RSum([p \in 1..N(G) |-> w[p] (.) mask[p]]) (/) RSum(w)
\* spacing of the grid's points
Spacing(G) == IF G.kind = "spiral" THEN RSqrt(("4" (.) Pi) (/) RInt(G.n))
              ELSE RMax(Pi (/) RInt(G.nlat - 1), TwoPi (/) RInt(G.nlon))
C03(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "star" THEN V(BuiltPar(e, {"rad"}), Asked)
  ELSE IF e.op = "transit" THEN
    LET G == Grids[pre.g]  r == e.res
        mu == Mus(r.v.lat, r.v.lon, G.lat, G.lon)
        side == Side(r.pl)
        far == PlD(pre, r.pl) \succ ("1" (+) ("2.000001" (.) PlR(pre, r.pl)))
        want == Overlap(PlD(pre, r.pl), PlR(pre, r.pl)) (.) Sq(PlR(pre, r.pl))
        \* planets a few points wide: the disk is covered to the grid's resolution
        tol == ("0.6" (.) (PlR(pre, r.pl) (.) Spacing(G))) (+) "0.004"
    IN V(r.shape = G.shape, "mask is not on the star's grid")
       \cup V(All(r.mask, LAMBDA c : Within(c, "-1e-9", "1.000001")), "mask outside [0,1]")
       \cup V(side = -1 => All(r.mask, Zero), "planet behind the star covers part of it")
       \cup V(far => All(r.mask, Zero), "planet off the disk covers part of it")
       \cup V(side = 1 => \A p \in 1..N(G) : mu[p] \prec "-1e-9" => Zero(r.mask[p]), "far side covered")
       \cup V(side = 1 => \A p \in 1..N(G) : MaskOK(pre, r.pl, r.v, G, mu[p], p, r.mask[p]),
              "mask does not follow the planet's disk")
       \cup V((side = 1 /\ PlR(pre, r.pl) \succeq ("1.5" (.) Spacing(G)))
               => RAbs(MaskArea(G, r.v, r.mask) (-) want) \preceq tol, "covered area differs from the overlap")
  ELSE IF e.op = "coverage" THEN
    V(All(e.res.cov, LAMBDA x : AbsClose(x.f, Expected(pre, e, e.res.mask, RCent(x.t)), "1e-8")),
      "covered fraction is not the masked share of its temperature")
  ELSE IF e.op = "proj" THEN
    LET G == Grids[e.res.g]  v == e.res.v
        mu == Mus(v.lat, v.lon, G.lat, G.lon)
    IN V(\A p \in 1..N(G) : mu[p] \succ "1e-9" =>
            /\ AbsClose(e.res.x[p], ProjX(v.lat, v.lon, G.lat[p], G.lon[p]), Slack)
            /\ AbsClose(e.res.y[p], ProjY(v.lat, v.lon, G.lat[p], G.lon[p]), Slack), "sky projection")
  ELSE {}

(* C04  how much of the planet is seen                                     *)
SeenOK(pre, pl, x) ==
  \/ Side(pl) = 0 /\ Within(x, "0", "1")
  \/ Side(pl) # 0 /\ AbsClose(x, PlanetSeen(pre, pl), "1e-7") /\ Within(x, "0", "1")
C04(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "star" THEN V(BuiltPar(e, {"rad"}), Asked)
  ELSE IF e.op = "plfrac" THEN
    V(AbsClose(e.res.raw, Behind(pre, e.res.pl), "1e-7") /\ Within(e.res.raw, "0", "1"), "share outside the stellar disk")
    \cup V(SeenOK(pre, e.res.pl, e.res.seen), "visible share of the planet")
    \cup V(SeenOK(pre, e.res.pl, e.res.seen2), "visible share of the planet (coverage)")
  ELSE IF e.op = "transit" THEN V(SeenOK(pre, e.res.pl, e.res.seen), "visible share of the planet")
  ELSE IF e.op = "coverage" THEN
    V(SeenOK(pre, e.res.pl, e.res.seen) /\ SeenOK(pre, e.res.pl, e.res.seen2), "visible share of the planet")
  ELSE IF e.op = "overlap" THEN
    LET d == RSqrt(Sq(e.res.x) (+) Sq(e.res.y))
    IN V(AbsClose(e.res.f, Overlap(d, e.res.r), "1e-7") /\ Within(e.res.f, "0", "1"), "circle overlap")
  ELSE {}

(* C05, C06  the life of one feature                                       *)
C05(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "spot" THEN V(SpotSame(e.res.now, e.res.given), Asked)
  ELSE IF e.op = "spot_age" THEN
    LET x == e.res.pre  y == e.res.now
    IN V(KeysNear(SpotKey(x), SpotKey(y)), "aging changes the spot's parameters")
       \cup V(y.a \succeq RNeg(x.amax (.) "1e-12") /\ y.a \preceq (x.amax (.) "1.000000001"), "area outside [0, maximum]")
       \cup V(~x.grow => ~y.grow, "decaying spot grows again")
       \cup V(SpotAgedTo(x, y, e.res.dt), "area after aging")
       \cup V((x.a = x.amax /\ x.gr \succ "0") => ~y.grow, "growth goes on at the maximum")
  ELSE IF e.op = "spot_parts" THEN
    LET x == e.res.whole  y == e.res.parts
    IN V(RClose(x.a, y.a, "1e-7", x.amax (.) "1e-8"), "aging in parts differs from aging at once")
       \cup V(x.grow = y.grow \/ SpotTurnsAt(e.res.pre, e.res.tot) \/ RClose(x.a, x.amax, "1e-7", "0"),
              "growth phase depends on the partition")
  ELSE {}
C06(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "fac" THEN V(FacSame(e.res.now, e.res.given), Asked)
  ELSE IF e.op = "fac_age" THEN
    LET x == e.res.pre  y == e.res.now
    IN V(KeysNear(FacKey(x), FacKey(y)), "aging changes the facula's parameters")
       \cup V(y.r \succ "0" /\ y.r \preceq (x.rmax (.) "1.000000001"), "radius outside (0, maximum]")
       \cup V(~x.grow => ~y.grow, "decaying facula grows again")
       \cup V(FacAgedTo(x, y, e.res.dt), "radius after aging")
       \cup V(x.r = x.rmax => ~y.grow, "growth goes on at the maximum")
  ELSE IF e.op = "fac_parts" THEN
    LET x == e.res.whole  y == e.res.parts
    IN V(RClose(x.r, y.r, "1e-7", "0"), "aging in parts differs from aging at once")
       \cup V(x.grow = y.grow \/ FacTurnsAt(e.res.pre, e.res.tot) \/ RClose(x.r, x.rmax, "1e-7", "0"),
              "growth phase depends on the partition")
  ELSE {}

(* C07  the population of features                                         *)
Head2(seq, n) == SubSeq(seq, 1, n)
C07(pre, e) ==
  IF ~Runs(e) THEN {} ELSE
  LET post == e.post
  IN IF e.op \in Builds THEN V(BuiltSpots(e) /\ BuiltFacs(e), Asked)
     ELSE IF e.op = "age" THEN
       V(SpotsAgedTo(pre.spots, post.spots, e.res.dt), "spots after aging")
       \cup V(FacsAgedTo(pre.facs, post.facs, e.res.dt), "faculae after aging")
       \cup V(ParSame(pre, post), "aging changes the star's parameters")
       \cup V(e.args, "a call changes what it was given")
     ELSE V(e.op \in {"add_spots", "add_facs", "birth", "mature", "regrid"} => ParSame(pre, post), "parameters of the star change") \cup
     V(e.op \in {"add_spots", "add_facs", "birth", "mature", "regrid"} => e.args, "a call changes what it was given") \cup
     IF e.op = "add_spots" THEN
       V(SpotsSame(post.spots, pre.spots \o e.res.new), "spots after adding spots")
       \cup V(FacsSame(post.facs, pre.facs), "faculae after adding spots")
     ELSE IF e.op = "add_facs" THEN
       V(FacsSame(post.facs, pre.facs \o e.res.new), "faculae after adding faculae")
       \cup V(SpotsSame(post.spots, pre.spots), "spots after adding faculae")
     ELSE IF e.op \in {"birth", "mature"} THEN
       V(Len(post.spots) >= Len(pre.spots) /\ SpotsSame(Head2(post.spots, Len(pre.spots)), pre.spots),
         "births disturb existing spots")
       \cup V(Len(post.facs) >= Len(pre.facs) /\ FacsSame(Head2(post.facs, Len(pre.facs)), pre.facs),
              "births disturb existing faculae")
       \cup V((e.op = "mature" \/ e.res.what = "spots") => Len(post.facs) = Len(pre.facs), "births of the wrong kind")
       \cup V((e.op = "birth" /\ e.res.what # "spots") => Len(post.spots) = Len(pre.spots), "births of the wrong kind")
     ELSE IF e.op \in {"regrid", "map", "shapes"} THEN
       V(SpotsSame(post.spots, pre.spots) /\ FacsSame(post.facs, pre.facs), "population changed")
     ELSE {}

(* C08  the map of the spots                                               *)
PenOK(D, r, pix, n) ==
  \A p \in 1..n : (InCap(D[p], r) => p \in pix) /\ (p \in pix => MayCap(D[p], r))
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
TheGrid(st) == IF st.g = "none" THEN Grids[st.sg] ELSE Grids[st.g]
C08(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op \in Builds THEN V(BuiltSpots(e) /\ BuiltPar(e, {"teff", "rad"}), Asked)
  ELSE IF e.op = "add_spots" THEN V(SpotsSame(e.post.spots, pre.spots \o e.res.new), Asked)
  ELSE IF e.op = "map" THEN
    LET G == TheGrid(pre)  r == e.res
        D == SpotDist(pre, G)  R == SpotRad(pre)  U == UmbraRad(pre)
    IN V(r.shape = G.shape, "map is not on the grid")
       \cup V(\A p \in 1..N(G) : CoolestAt(pre, D, R, U, p, r.map[p]), "point is not at the coolest covering temperature")
       \cup V(\A i \in 1..Len(pre.spots) : RClose(r.sp[i].rad, R[i], "1e-8", "1e-10"), "angular radius of a spot")
       \cup V(\A i \in 1..Len(pre.spots) :
                RClose(r.sp[i].km, RSqrt(pre.spots[i].a (/) Pi), "1e-9", "0"), "radius of a spot")
       \cup V(\A i \in 1..Len(pre.spots) :
                /\ PenOK(D[i], R[i], SetOf(r.sp[i].pen), N(G))
                /\ \/ Near(pre.spots[i].tu, pre.spots[i].tp)
                   \/ PenOK(D[i], U[i], SetOf(r.sp[i].umb), N(G)), "points of a spot")
       \cup V(r.cov \succeq (CoverLow(pre, G) (-) "1e-6") /\ r.cov \preceq (CoverHigh(pre, G) (+) "1e-6"),
              "share of the surface covered by spots")
  ELSE IF e.op = "pair" THEN   \* the same spots in another order
    V(\A p \in 1..Len(e.a) : Near(e.a[p], e.b[p]), "map depends on the order of the spots")
  ELSE {}

(* C09  faculae painted over the map                                       *)
\* faculae covering p, the last one wins
LastFac(pix, p) == LET S == {i \in DOMAIN pix : p \in pix[i]}
                   IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A k \in S : k <= i
C09(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op \in Builds THEN V(BuiltFacs(e) /\ BuiltPar(e, {"teff", "rad"}), Asked)
  ELSE IF e.op = "add_facs" THEN V(FacsSame(e.post.facs, pre.facs \o e.res.new), Asked)
  ELSE IF e.op = "facmap" THEN
    LET G == Grids[pre.g]  r == e.res  st == pre
        mu == Mus(r.v.lat, r.v.lon, G.lat, G.lon)
        F == 1..Len(st.facs)
        pix == Force([i \in F |-> FacPix(st.facs[i], G, st.rad)])
        edge == Force([i \in F |-> FacEdge(st.facs[i], G, st.rad) \/ Tie(WallDT(st.facs[i])) \/ Tie(FloorDT(st.facs[i]))])
        near == Force([i \in F |-> LET f == st.facs[i] D == FacDist(f, G)
                                   IN {p \in 1..N(G) : D[p] \preceq (FacRadius(f, st.rad) (+) Edge)}])
        h == Force([i \in F |-> WallReach(st.facs[i], Cardinality(pix[i]),
                                  Dist(r.v.lat, r.v.lon, st.facs[i].lat, st.facs[i].lon))])
        out(p) == \A i \in F : p \notin near[i]
        fuzzy(p) == \E i \in F : p \in near[i] /\ edge[i]
        at(p, i) == LET f == st.facs[i]
                        wall == AbsClose(r.m1[p], WallT(st, f), "1e-6")
                        floor == AbsClose(r.m1[p], FloorT(st, f), "1e-6")
                    IN /\ wall \/ floor
                       /\ (~wall => ~MustWall(mu, pix[i], p, h[i]))
                       /\ (~floor => ~MustFloor(mu, pix[i], p, h[i]))
    IN V(r.shape = G.shape, "map is not on the grid")
       \cup V(\A p \in 1..N(G) : out(p) => Near(r.m1[p], r.m0[p]), "faculae change points outside them")
       \cup V(\A p \in 1..N(G) : (~out(p) /\ ~fuzzy(p)) => at(p, LastFac(pix, p)),
              "point of a facula is not at its wall or floor temperature")
  ELSE IF e.op = "facids" THEN     \* the number of the last facula over each point of the quiet photosphere
    LET G == TheGrid(pre)  r == e.res
        F == 1..Len(pre.facs)
        D == Force([i \in F |-> FacDist(pre.facs[i], G)])
        R == Force([i \in F |-> FacRadius(pre.facs[i], pre.rad)])
        quiet(p) == Near(r.map[p], pre.teff)
        ok(p) == LET k == r.ids[p]
                 IN IF ~quiet(p) THEN k = 0
                    ELSE /\ k # 0 => k \in F /\ MayCap(D[k][p], R[k])
                         /\ \A i \in F : i > k => ~InCap(D[i][p], R[i])
    IN V(r.shape = G.shape, "map is not on the grid")
       \cup V(\A p \in 1..N(G) : ok(p), "number of the facula over a point")
       \cup V(r.keys = [i \in F |-> i - 1] /\ r.vals = [i \in F |-> i], "numbers of the faculae")
  ELSE IF e.op = "facinfo" THEN
    LET f == e.res.f
        tie == Tie(WallDT(f)) \/ Tie(FloorDT(f))
        ok(s) == LET share == WallShare(f, s.ang, Overlap)
                     a == (Pi (.) Sq(f.r)) (.) RCos(s.ang)
                 IN /\ tie \/ (/\ AbsClose(s.tw, WallDTr(f), "1e-6") /\ AbsClose(s.tf, FloorDTr(f), "1e-6")
                               /\ AbsClose(s.tw2, WallDTr(f), "1e-6") /\ AbsClose(s.tf2, FloorDTr(f), "1e-6"))
                    /\ AbsClose(s.fw, share, "1e-7") /\ AbsClose(s.ff, "1" (-) share, "1e-7")
                    /\ RClose(s.aw, share (.) a, "1e-7", RAbs(a) (.) "1e-7")
                    /\ RClose(s.af, ("1" (-) share) (.) a, "1e-7", RAbs(a) (.) "1e-7")
    IN V(RClose(e.res.wall, WallDT(f), "1e-9", "1e-6") /\ RClose(e.res.floor, FloorDT(f), "1e-9", "1e-6"),
         "temperatures of wall and floor")
       \cup V(Near(e.res.ang, FacRadius(f, pre.rad)), "angular radius of a facula")
       \cup V(All(e.res.seen, ok), "split into wall and floor")
  ELSE {}

(* C10  one grid for the star and everything on it                         *)
C10(pre, e) ==
  IF ~Runs(e) THEN {} ELSE
  LET st == e.post
      g == IF st.g = "none" THEN st.sg ELSE st.g
      one == /\ st.sg = g /\ st.fg = g
             /\ All(st.spots, LAMBDA s : s.g = g) /\ All(st.facs, LAMBDA f : f.g = g)
  IN IF g = "none" THEN {} ELSE
     V(one, "features on different grids")
     \cup V(e.op = "regrid" => g = e.res.g, "grid was not changed")
     \cup (IF e.op = "star" THEN V(e.res.gen.s = g /\ e.res.gen.f = g, "generators on another grid") ELSE {})
     \cup (IF e.op # "shapes" THEN {} ELSE
           LET G == Grids[g]  r == e.res
               D == SpotDist(st, G)  R == SpotRad(st)
           IN V(r.map = G.shape /\ r.full = G.shape, "map is not on the grid")
              \cup V(/\ Len(r.spots) = Len(st.spots) /\ Len(r.facs) = Len(st.facs)
                     /\ \A i \in 1..Len(r.spots) : r.spots[i].shape = G.shape /\ r.spots[i].g = g
                     /\ \A i \in 1..Len(r.facs) : r.facs[i].shape = G.shape /\ r.facs[i].g = g, "feature drawn on another grid")
              \cup V(\A i \in 1..Len(r.spots) : PenOK(D[i], R[i], SetOf(r.spots[i].pen), N(G)),
                     "points of a spot on the star's grid")
              \cup V(\A i \in 1..Len(r.facs) :
                       PenOK(FacDist(st.facs[i], G), FacRadius(st.facs[i], st.rad), SetOf(r.facs[i].pix), N(G)),
                     "points of a facula on the star's grid"))

(* C11  grids                                                              *)
CircClose(x, y) == AbsClose(x, y, "1e-9") \/ AbsClose(RAbs(x (-) y), TwoPi, "1e-9")
C11(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "grid" THEN
    LET r == e.res  g == Grids[r.g]
        n == NPix(g)
        lats == GridLats(g)  lons == GridLons(g)
        areas == Areas(g, lats)
    IN V(r.kind = (IF g.kind = "spiral" THEN "SpiralGrid" ELSE "RectangularGrid"), "kind of grid")
       \cup V(Len(r.lat) = n /\ Len(r.lon) = n /\ Len(r.area) = n, "number of points")
       \cup V(r.shlat = GShape(g) /\ r.shlon = GShape(g) /\ r.sharea = GShape(g) /\ r.shz = GShape(g), "shapes")
       \cup V(Len(r.lat) = n => \A p \in 1..n : AbsClose(r.lat[p], lats[p], "1e-9"), "latitudes")
       \cup V(Len(r.lon) = n => \A p \in 1..n : CircClose(r.lon[p], lons[p]), "longitudes")
       \cup V(All(r.lat, LAMBDA x : Within(x, RNeg("1.5707963268"), "1.5707963268"))
              /\ All(r.lon, LAMBDA x : Within(x, "0", "6.2831853072")), "coordinates out of range")
       \cup V(RClose(RSum(r.area), "1", "0", "1e-5"), "areas do not sum to one")
       \cup V(Len(r.area) = n => \A p \in 1..n : RClose(r.area[p], areas[p], "1e-6", "1e-12"), "areas")
       \cup V(All(r.zeros, Zero) /\ r.zi = "int16", "zeros")
       \cup V(r.same /\ r.again, "equal grids differ")
       \cup V(All(r.views, LAMBDA w : LET mu == Mus(w.v.lat, w.v.lon, lats, lons)
                                     IN \A p \in 1..n : AbsClose(w.mu[p], mu[p], "1e-9")), "cosine of the angle from disk center")
       \cup (IF g.kind = "spiral" THEN {} ELSE
             V(/\ Len(r.one.lat) = g.nlat /\ Len(r.one.lon) = g.nlon
               /\ \A i \in 1..g.nlat : AbsClose(r.one.lat[i], lats[i], "1e-9")
               /\ \A i \in 1..g.nlon : AbsClose(r.one.lon[i], lons[(i - 1) * g.nlat + 1], "1e-9")
               /\ AbsClose(r.one.dlat, Pi (/) RInt(g.nlat - 1), "1e-9")
               /\ AbsClose(r.one.dlon, TwoPi (/) RInt(g.nlon), "1e-9"), "axes"))
  ELSE IF e.op = "grideq" THEN
    V((e.res.eq = "TRUE") = (e.res.ga = e.res.gb), "equality of grids")
  ELSE {}

(* C12  births                                                             *)
SpotBornOK(g, s) ==
  /\ Within(s.lat, RNeg(HalfPi), HalfPi) /\ Within(s.lon, "0", TwoPi)
  /\ s.amax \succ "0" /\ RFinite(s.amax) /\ s.ratio \succ "0" /\ s.grow
  /\ Near(s.a, g.init) /\ Near(s.tu, g.tu) /\ Near(s.tp, g.tp) /\ Near(s.gr, g.gr) /\ Near(s.dr, g.dr)
  /\ s.g = g.g
FacBornOK(g, f) ==
  /\ Within(f.lat, RNeg(HalfPi), HalfPi) /\ Within(f.lon, "0", TwoPi)
  /\ f.rmax \succ "0" /\ RFinite(f.rmax) /\ f.life \succ "0" /\ RFinite(f.life) /\ f.grow
  /\ Near(f.r, f.rmax (.) E2inv)
  /\ Near(f.depth, g.depth) /\ Near(f.fs, g.fs) /\ Near(f.fmin, g.fmin) /\ Near(f.fb, g.fb)
  /\ Near(f.ws, g.ws) /\ Near(f.wi, g.wi) /\ f.g = g.g
  \* larger faculae live longer
  /\ (g.rsig \succ "0" /\ g.lsig \succ "0") =>
       RClose(RLog10(f.rmax (/) g.rp) (/) g.rsig, RLog10(f.life (/) g.life) (/) g.lsig, "1e-6", "1e-6")
Map(seq, Op(_)) == Force([i \in 1..Len(seq) |-> Op(seq[i])])
\* latitudes say nothing about longitudes
Unrelated(lat, lon) ==
  Len(lon) > 0 => BinomOK(Cardinality({i \in 1..Len(lon) : (lat[i] \succ "0") = (lon[i] \succ Pi)}), Len(lon), "0.5")
\* uniform over the sphere
Isotropic(sinlat, lon) ==
  /\ UniformOK(Map(sinlat, LAMBDA x : "0.5" (.) (x (+) "1")))
  /\ UniformOK(Map(lon, LAMBDA x : x (/) TwoPi))
  /\ Unrelated(sinlat, lon)
IsoOK(new) == Isotropic(Map(new, LAMBDA s : RSin(s.lat)), Map(new, LAMBDA s : s.lon))
Deg15 == "0.2617993877991494"
Deg5 == "0.08726646259971647"
SolarOK(new) ==
  /\ ScoresOK(Map(new, LAMBDA s : RAbs(s.lat)), Deg15, Deg5)
  /\ Len(new) > 0 => BinomOK(Cardinality({i \in 1..Len(new) : new[i].lat \prec "0"}), Len(new), "0.5")
  /\ UniformOK(Map(new, LAMBDA s : s.lon (/) TwoPi))
  /\ Unrelated(Map(new, LAMBDA s : s.lat), Map(new, LAMBDA s : s.lon))
CountsOK(c, m) ==
  /\ Plausible(Total(c), m (.) RInt(Len(c)))
  /\ (Len(c) >= 100 /\ m \succ "0.05") => DispersionOK(c, m)
SpotSizesOK(g, new) ==
  /\ ScoresOK(Map(new, LAMBDA s : RLn(s.amax (/) g.mean)), "0", g.sig)
  /\ ScoresOK(Map(new, LAMBDA s : s.ratio), "5", "1")
FacSizesOK(g, new) ==
  /\ ScoresOK(Map(new, LAMBDA s : RLog10(s.rmax (/) g.rp)), "0", g.rsig)
  /\ ScoresOK(Map(new, LAMBDA s : RLog10(s.life (/) g.life)), "0", g.lsig)
C12(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "spot_nexp" THEN
    LET g == e.res.gen
    IN V(e.res.static = Static(g), "static")
       \cup V(RClose(e.res.life, SpotLife(g), "1e-8", "0"), "mean lifetime of spots")
       \cup V(RClose(e.res.area, SpotMeanArea(g), "1e-8", "0"), "mean area of spots")
       \cup V(RClose(e.res.n, SpotsExpected(g, e.res.rad, e.res.dt), "1e-8", "1e-12"), "expected number of spots")
  ELSE IF e.op = "fac_nexp" THEN
    LET g == e.res.gen
    IN V(RClose(e.res.area, FacMeanArea(g), "1e-8", "0"), "mean area of faculae")
       \cup V(RClose(e.res.n, FacsExpected(g, e.res.rad, e.res.dt), "1e-8", "1e-12"), "expected number of faculae")
  ELSE IF e.op = "spot_births" THEN
    LET g == e.res.gen
    IN V(CountsOK(e.res.counts, SpotsExpected(g, e.res.rad, e.res.dt)), "number of births")
       \cup V(All(e.res.new, LAMBDA s : SpotBornOK(g, s)), "newborn spot")
       \cup V(IF g.dist = "iso" THEN IsoOK(e.res.new) ELSE SolarOK(e.res.new), "places of birth")
       \cup V(SpotSizesOK(g, e.res.new), "sizes of newborn spots")
  ELSE IF e.op = "fac_births" THEN
    LET g == e.res.gen
    IN V(CountsOK(e.res.counts, FacsExpected(g, e.res.rad, e.res.dt)), "number of births")
       \cup V(All(e.res.new, LAMBDA s : FacBornOK(g, s)), "newborn facula")
       \cup V(IsoOK(e.res.new), "places of birth")
       \cup V(FacSizesOK(g, e.res.new), "sizes and lifetimes of newborn faculae")
  ELSE IF e.op = "spot_make" THEN
    LET g == e.res.gen  n == e.res.n  new == e.res.new
    IN V(Len(new) = n, "number of spots made")
       \cup V(All(new, LAMBDA s : SpotBornOK(g, s)), "newborn spot")
       \cup V(IF g.dist = "iso" THEN IsoOK(new) ELSE SolarOK(new), "places of birth")
       \cup V(SpotSizesOK(g, new), "sizes of newborn spots")
  ELSE IF e.op = "fac_make" THEN
    LET g == e.res.gen  n == e.res.n  new == e.res.new
    IN V(Len(new) = n, "number of faculae made")
       \cup V(All(new, LAMBDA s : FacBornOK(g, s)), "newborn facula")
       \cup V(IsoOK(new), "places of birth")
       \cup V(FacSizesOK(g, new), "sizes and lifetimes of newborn faculae")
  ELSE IF e.op = "birth" THEN
    LET ns == SubSeq(e.post.spots, e.res.ns + 1, Len(e.post.spots))
        nf == SubSeq(e.post.facs, e.res.nf + 1, Len(e.post.facs))
        sg == [e.res.sgen EXCEPT !.g = e.post.g]  fg == [e.res.fgen EXCEPT !.g = e.post.g]
    IN V(All(ns, LAMBDA s : SpotBornOK(sg, s)) /\ All(nf, LAMBDA f : FacBornOK(fg, f)), "newborn feature of the star")
       \cup V(IF e.res.what = "spots" THEN Plausible(RInt(Len(ns)), SpotsExpected(e.res.sgen, pre.rad, e.res.dt))
              ELSE Plausible(RInt(Len(nf)), FacsExpected(e.res.fgen, pre.rad, e.res.dt)), "number of births")
  ELSE {}

(* C13  mature spots                                                       *)
Solid(s, rad) == Pi (.) Sq(SpotRadius(s, rad))
MatureOK(g, s) ==
  /\ Within(s.lat, RNeg(HalfPi), HalfPi) /\ Within(s.lon, "0", TwoPi)
  /\ s.amax \succ "0" /\ s.a \succeq RNeg(s.amax (.) "1e-12")
  /\ IF Static(g) THEN Within(s.a, RMin(g.init, s.amax) (.) "0.999999999", RMax(g.init, s.amax) (.) "1.000000001")
     ELSE s.a \preceq (s.amax (.) "1.000000001")
  /\ Near(s.tu, g.tu) /\ Near(s.tp, g.tp) /\ Near(s.gr, g.gr) /\ Near(s.dr, g.dr)
\* the age of a mature spot, from what it has become; a spot that is gone was at least as old
Newborn(g, s) == [s EXCEPT !.a = g.init, !.grow = TRUE]
AgeOf(g, s) ==
  IF s.grow THEN RLn(s.a (/) g.init) (/) SpotTau(s)
  ELSE SpotToMax(Newborn(g, s)) (+) ((s.amax (-) s.a) (/) s.dr)
EndsAt(g, s) == SpotToMax(Newborn(g, s)) (+) (s.amax (/) s.dr)
\* any time of a mean life is as likely as any other; static spots have any area between the first and the last
StagesOK(g, new) ==
  IF Static(g)
  THEN LET some == SelectSeq(new, LAMBDA s : RAbs(s.amax (-) g.init) \succ (s.amax (.) "1e-6"))
       IN Len(some) >= 20 => UniformOK(Map(some, LAMBDA s : (s.a (-) g.init) (/) (s.amax (-) g.init)))
  ELSE g.gr \succ "0" =>
       LET life == SpotLife(g)
           some == SelectSeq(new, LAMBDA s : EndsAt(g, s) \succ (life (.) "1.000001"))
       IN /\ All(new, LAMBDA s : AgeOf(g, s) \preceq ((life (.) "1.000001") (+) "1e-9"))
          /\ Len(some) >= 20 => UniformOK(Map(some, LAMBDA s : AgeOf(g, s) (/) life))
MatureSum(new, rad) == RSum([i \in 1..Len(new) |-> Solid(new[i], rad)])
MatureClauses(g, rad, cov, new) ==
  LET target == ("4" (.) Pi) (.) cov
  IN V(All(new, LAMBDA s : MatureOK(g, s)), "mature spot")
     \cup V(StagesOK(g, new), "stages of life of mature spots")
     \cup V(IF g.dist = "iso" THEN IsoOK(new) ELSE SolarOK(new), "places of mature spots")
     \cup V(Len(new) >= 20 => SpotSizesOK(g, new), "sizes of mature spots")
     \cup V(MatureSum(new, rad) \succeq (target (.) "0.9999999"), "target coverage not reached")
     \cup V(IF Len(new) = 0 THEN target \preceq "1e-12"
            ELSE MatureSum(SubSeq(new, 1, Len(new) - 1), rad) \prec ((target (.) "1.0000001") (+) "1e-12"),
            "spots added beyond the target")
C13(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "spot_mature" THEN
    MatureClauses(e.res.gen, e.res.rad, e.res.cov, e.res.new)
    \cup V(\A i \in 1..Len(e.res.new) :
             RClose(e.res.ang[i], SpotRadius(e.res.new[i], e.res.rad), "1e-8", "1e-10"), "angular radius")
  ELSE IF e.op = "mature" THEN
    MatureClauses(e.res.sgen, pre.rad, e.res.cov, SubSeq(e.post.spots, e.res.ns + 1, Len(e.post.spots)))
  ELSE {}

----------------------------------------------------------------------------
(* Pairs of runs.  An event "pair" holds, for two runs of the               *)
(* implementation, what each observed: numbers (na, nb) and texts (ta, tb). *)
PairExact(e) == e.na = e.nb /\ e.ta = e.tb
PairNear(e, rel, abs) ==
  /\ e.ta = e.tb /\ Len(e.na) = Len(e.nb)
  /\ \A i \in 1..Len(e.na) : RClose(e.na[i], e.nb[i], rel, abs) \/ (RIsNaN(e.na[i]) /\ RIsNaN(e.nb[i]))

(* C14  same seed, same results                                            *)
C14(pre, e) == IF e.op = "pair" THEN V(PairExact(e), "runs with the same seed differ") ELSE {}

(* C15  flare series                                                       *)
FlareOK(g, f) ==
  /\ f.e \succeq (g.emin (.) "0.999999999") /\ RFinite(f.e) /\ f.fwhm \succ "0" /\ RFinite(f.fwhm)
  /\ Within(f.lat, RNeg(HalfPi), HalfPi) /\ Within(f.lon, "0", TwoPi)
Increasing(s) == \A i \in 2..Len(s) : s[i] \succ s[i - 1]
C15(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "flare_law" THEN
    LET g == e.res.gen  r == e.res  n == Len(r.es)
        near(x, y) == RClose(x, y, "1e-7", "0")
        may == {i \in 1..n : r.es[i] \succeq g.emin}      \* energies a flare may have
    IN V(\A i \in 1..n : near(r.freq[i], Rate(g, r.es[i])), "frequency of flares above an energy")
       \cup V(\A i \in 1..n : near(r.nexp[i], Rate(g, r.es[i]) (.) r.dt), "expected number of flares above an energy")
       \cup V(near(r.ntot, Rate(g, g.emin) (.) r.dt), "expected number of flares")
       \cup (IF ~RFinite(g.emin) THEN {} ELSE
             V(\A i \in may : AbsClose(r.cdf[i], Cdf(g, r.es[i]), "1e-9") /\ AbsClose(r.cdfv[i], Cdf(g, r.es[i]), "1e-9"),
               "cumulative distribution of energies")
             \cup V(\A i \in may : near(r.pdf[i], Pdf(g, r.es[i])) /\ near(r.pdfv[i], Pdf(g, r.es[i])), "density of energies")
             \cup V(\A i \in 1..Len(r.xs) : near(r.qs[i], Quantile(g, r.xs[i])) /\ near(r.q1[i], Quantile(g, r.xs[i]))
                                           /\ AbsClose(Cdf(g, r.qs[i]), r.xs[i], "1e-8"), "quantiles of energies"))
  ELSE IF e.op = "flare_series" THEN
    LET g == e.res.gen  r == e.res
        m == Rate(g, g.emin) (.) r.dt
    IN V(CountsOK(r.counts, m), "number of flares")
       \cup V(\A k \in 1..Len(r.runs) : All(r.runs[k], LAMBDA f : FlareOK(g, f)), "flare out of range")
       \cup V(\A k \in 1..Len(r.runs) : LET t == Map(r.runs[k], LAMBDA f : f.tp)
                                       IN Increasing(t) /\ (Len(t) > 0 => t[1] \succ "0"), "peaks are not in order")
       \cup V(\A k \in 1..Len(r.runs) : Len(r.runs[k]) = (IF r.counts[k] > 60 THEN 60 ELSE r.counts[k]), "flares missing")
       \cup V(Increasing(r.tps), "peaks are not in order")
       \cup V(UniformOK(Map(r.es, LAMBDA x : Cdf(g, x))), "distribution of energies")
       \cup V(Isotropic(r.sl, r.lo), "places of flares")
  ELSE IF e.op = "flare_draws" THEN
    LET g == e.res.gen  r == e.res  n == r.n
    IN V(Len(r.peaks) = n /\ Len(r.fwhm) = n /\ Len(r.T) = n, "number of draws")
       \cup V(Increasing(r.peaks) /\ (n > 0 => r.peaks[1] \succ "0"), "peaks are not in order")
       \cup V(n >= 500 => Within(r.peaks[n], "0.7", "2.0"), "peaks are not spread over the observation")
       \cup V(/\ ScoresOK(Map(r.fwhm, LAMBDA x : RLog10(x (/) g.fm)), "0", g.fsig)
              /\ ScoresOK(r.T, g.tm, g.ts), "widths and temperatures of flares")
  ELSE IF e.op = "star_flares" THEN
    V(e.res.n = Len(e.post.flares), "flares of the star")
    \cup V(All(e.post.flares, LAMBDA f : f \notin SetOf(pre.flares)), "flares of an earlier observation")
    \cup V(Plausible(RInt(e.res.n), Rate(e.res.gen, e.res.gen.emin) (.) e.res.dt), "number of flares")
    \cup V(All(e.post.flares, LAMBDA f : FlareOK(e.res.gen, f)), "flare out of range")
    \cup V(Increasing(Map(e.post.flares, LAMBDA f : f.tp)), "peaks are not in order")
  ELSE {}

(* C16  flares in a window                                                 *)
TenMin == "0.006944444444444444"
\* what sampling every ten minutes can miss
Missed(f, t0, t1) ==
  LET h == RMin(TenMin, t1 (-) t0)
      q == h (/) f.fwhm
  IN (PeakArea(f) (.) h) (.) ("0.012" (+) ("0.45" (.) q))
C16(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "flares" THEN V(BuiltFlares(e), Asked)
  ELSE IF e.op = "flare_window" THEN
    LET r == e.res  fs == pre.flares
        vis == SetOf(r.vis)
        good == \A i \in vis : i \in 1..Len(fs)
    IN V(good /\ Cardinality(vis) = Len(r.vis), "reports what is no flare, or one twice")
       \cup (IF ~good THEN {} ELSE
         V(\A i \in vis : ~FarSide(fs[i], r.v), "flare on the far side reported")
         \cup V(\A i \in 1..Len(fs) : (Emits(fs[i], r.t0, r.t1) /\ OnDisk(fs[i], r.v)) => i \in vis, "visible flare missing")
         \cup V(\A i \in 1..Len(fs) : Emits(fs[i], r.t0, r.t1) => i \in SetOf(r.act), "active flare missing")
         \cup V(vis \subseteq SetOf(r.act), "visible but not active")
         \cup V(/\ Len(r.mask) = Len(fs) /\ Len(r.peaks) = Len(fs) /\ Len(r.fwhms) = Len(fs)
                /\ \A i \in 1..Len(fs) : /\ Emits(fs[i], r.t0, r.t1) => r.mask[i]
                                         /\ Near(r.peaks[i], fs[i].tp) /\ Near(r.fwhms[i], fs[i].fwhm), "index of the flares")
         \cup V(Len(r.ints) = Len(r.vis), "one integral per visible flare")
         \cup V(Len(r.ints) = Len(r.vis) =>
                 \A k \in 1..Len(r.vis) :
                   LET f == fs[r.vis[k]]
                   IN /\ Near(r.ints[k].T, f.T) /\ r.ints[k].ta \succeq "0"
                      /\ AbsClose(r.ints[k].ta, TimeArea(f, r.t0, r.t1), Missed(f, r.t0, r.t1)),
                "integrated area of a flare"))
  ELSE IF e.op = "flare_split" THEN
    V(\A i \in 1..Len(pre.flares) :
        AbsClose(e.res.whole[i], e.res.parts[i], RInt(e.res.k + 1) (.) Missed(pre.flares[i], e.res.t0, e.res.t1)),
      "window integral is not the sum of its parts")
  ELSE IF e.op = "pair" THEN V(PairNear(e, "1e-9", "1e-9"), "star and collection disagree")
  ELSE {}

(* C17  light curve of a flare                                             *)
Trapz(t, a) == RSum([i \in 1..Len(t) - 1 |-> ("0.5" (.) (a[i] (+) a[i + 1])) (.) (t[i + 1] (-) t[i])])
C17(pre, e) ==
  IF ~Runs(e) \/ e.op # "flare_curve" THEN {} ELSE
  LET f == e.res.f  r == e.res
      pk == PeakArea(f)
      fuzzy(x) == AbsClose(x, "-1", "1e-9") \/ AbsClose(x, "20", "1e-9") \/ AbsClose(x, "0", "1e-9")
  IN V(RClose(r.peak, pk, "1e-8", "0"), "peak area does not radiate the flare's energy")
     \cup V(All(r.a, LAMBDA x : x \succeq "0" /\ x \preceq (pk (.) "1.00000001")), "area negative or above its peak")
     \cup V(\A i \in 1..Len(r.t) : fuzzy(X(f, r.t[i])) \/ RClose(r.a[i], Area(f, r.t[i]), "1e-7", pk (.) "1e-8"), "area over time")
     \cup V(\A i \in 1..Len(r.t) : AbsClose(r.t[i], f.tp, "0") => RClose(r.a[i], pk, "1e-8", "0"), "area at the peak")
     \cup V(RClose(r.ta, Trapz(r.t, r.a), "1e-8", pk (.) "1e-12"), "integrated area")

(* C18  granulation                                                        *)
GranOff(r) == r.star /\ (Zero(r.gdt) \/ (Zero(r.mean) /\ Zero(r.amp)))
C18(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "gran_cov" THEN
    LET r == e.res
        s == IF Zero(r.amp) THEN "0" ELSE GStd(r.amp, r.perh)
        d == ("8" (.) s) (+) "1e-3"
        v0 == Sq(s)
        pairs == IF r.n <= 24 THEN {<<i, j>> : i \in 1..r.n, j \in 1..r.n} ELSE {<<i, i + 1>> : i \in 1..(r.n - 1)}
        far(i, j) == IF Zero(r.amp) THEN "0" ELSE
                     RSqrt(RMax("0", "2" (.) (v0 (-) GCov(r.amp, r.perh, RAbs(r.t[i] (-) r.t[j])))) (+) (v0 (.) "1e-5"))
    IN V(r.shape = r.tshape /\ Len(r.c) = r.n, "one coverage per time")
       \cup V(All(r.c, LAMBDA x : Within(x, "0", "1")), "coverage outside [0,1]")
       \cup V(r.c = r.again, "coverage is not a function of seed and times")
       \cup V(GranOff(r) => All(r.c, Zero), "granulation is off")
       \cup V((~GranOff(r) /\ ~Zero(r.perh)) =>
               All(r.c, LAMBDA x : Within(x, Clamp(r.mean (-) d, "0", "1"), Clamp(r.mean (+) d, "0", "1"))),
              "coverage strays from its mean")
       \cup V(Len(r.c) = r.n => \A q \in pairs : RAbs(r.c[q[1]] (-) r.c[q[2]]) \preceq (("8" (.) far(q[1], q[2])) (+) "1e-6"),
              "coverages at close times differ")
  ELSE IF e.op = "gran_many" THEN
    LET r == e.res  n == Len(r.c)
        v0 == GCov(r.amp, r.perh, "0")
        cov(k, l) == Avg([i \in 1..n |-> (r.c[i][k] (-) r.mean) (.) (r.c[i][l] (-) r.mean)])
    IN V(\A k \in 1..Len(r.t) : MeanOK(Avg(Map(r.c, LAMBDA x : x[k] (-) r.mean)), n, "0", RSqrt(v0)), "mean of the granulation")
       \cup V(\A i, j \in 1..n : i # j => r.c[i] # r.c[j], "seeds give the same granulation")
       \cup V(\A k, l \in 1..Len(r.t) : k >= l =>
                RAbs(cov(k, l) (-) GCov(r.amp, r.perh, RAbs(r.t[k] (-) r.t[l]))) \preceq ((v0 (.) "6.5") (.) RSqrt("2" (/) RInt(n))),
              "covariance of the granulation")
  ELSE IF e.op = "pair" THEN V(PairExact(e), "coverage is not a function of seed and times")
  ELSE {}

(* C19  queries leave no trace                                             *)
Queries == {"map", "facmap", "facinfo", "coverage", "transit", "plfrac", "avg", "mu", "shapes", "grid",
            "grideq", "display", "angle", "proj", "flare_window", "flare_split", "gran_cov", "grancov", "rng"}
C19(pre, e) ==
  IF e.op = "pair" THEN V(PairExact(e), "a query changes what happens later")
  ELSE IF Runs(e) /\ e.op \in Queries THEN
    V(e.post = pre, "a query changes the star") \cup V(e.args, "a query changes what it was given")
  ELSE {}

(* C20  units are notation                                                 *)
C20(pre, e) ==
  IF e.op = "pair" THEN V(PairNear(e, e.tol, e.tol), "the result depends on the units of the arguments")
  ELSE IF e.op = "msh" /\ Runs(e) THEN
    V(RClose(e.res.km2, ("2e-6" (.) Pi) (.) Sq(e.res.rsun), "1e-9", "0"), "micro solar hemisphere")
  ELSE {}

(* C21  turning star and observer together                                 *)
\* event: g, k (turn by k longitude steps), per-point arrays pa/pb, numbers na/nb
Turned(G, k, p) ==
  LET j == (p - 1) \div G.nlat  i == (p - 1) % G.nlat
  IN (((j + k) % G.nlon) * G.nlat) + i + 1
C21(pre, e) ==
  IF e.op # "pair" THEN {} ELSE
  LET G == Grids[e.g]
  IN V(PairNear(e, "1e-6", e.tol), "what is seen changes when star and observer turn together")
     \cup V(\A q \in 1..Len(e.pa) : \A p \in 1..N(G) :
              RClose(e.pa[q][p], e.pb[q][Turned(G, e.k, p)], "1e-6", e.ptol), "map or mask does not turn with the star")

(* C22  bolometric average                                                 *)
C22(pre, e) ==
  IF ~Runs(e) \/ e.op # "avg" THEN {} ELSE
  LET r == e.res
      ts == [i \in 1..Len(r.tot) |-> r.tot[i].t]
      sum4 == RSum([i \in 1..Len(r.tot) |-> r.tot[i].f (.) Sq(Sq(r.tot[i].t))])
      mean == RSqrt(RSqrt(sum4 (/) RSum(Fs(r.tot))))
      seen == [i \in 1..Len(ts) |-> IF r.tot[i].f \succ "0" THEN ts[i] ELSE pre.teff]
  IN V(RClose(r.t, mean, "1e-8", "0"), "average temperature is not the fourth-power mean")
     \cup V(Within(r.t, RMinSeq(ts) (-) "0.01", RMaxSeq(ts) (+) "0.01"), "average outside the range seen")

(* C23  granulation moves part of the photosphere                          *)
MovedOK(st, g, before, after) ==
  LET phot == RCent(st.teff)  cool == GranT(st)
      same == AbsClose(phot, cool, "1e-6")
      p0 == FracOf(before, phot)
      want(t) == IF same THEN FracOf(before, t)
                 ELSE IF AbsClose(t, phot, "0.002") THEN p0 (.) ("1" (-) g)
                 ELSE IF AbsClose(t, cool, "0.002") THEN FracOf(before, t) (+) (p0 (.) g)
                 ELSE FracOf(before, t)
  IN /\ All(after, LAMBDA x : AbsClose(FracOf(after, x.t), want(x.t), "1e-9"))
     /\ All(before, LAMBDA x : x.f \succ "1e-12" => LabelIn(after, x.t))
     /\ (g \succ "0" /\ p0 \succ "1e-9") => LabelIn(after, cool)
C23(pre, e) ==
  IF Runs(e) /\ e.op = "star" THEN V(BuiltPar(e, {"teff", "gdt"}), Asked) ELSE
  IF ~Runs(e) \/ e.op # "grancov" THEN {} ELSE
  V(MovedOK(pre, e.res.g, e.res.tot0, e.res.tot), "granulation in the total fractions")
  \cup V(MovedOK(pre, e.res.g, e.res.cov0, e.res.cov), "granulation in the covered fractions")
  \cup V(Exactly(e.res.seen0, e.res.seen), "granulation changes the planet")
  \cup V(AbsClose(RSum(Fs(e.res.tot)), "1", "1e-9"), "fractions do not sum to one")

(* C24  resampling for display                                             *)
DispGrid(r) == [kind |-> "rect", nlat |-> r.nlat, nlon |-> r.nlon]
\* average of the data weighted by closeness, on the scale of the points' spacing
Resampled(G, data, lat, lon) ==
  LET s2 == ("4" (.) Pi) (/) RInt(N(G))
      w == Force([p \in 1..N(G) |-> RExp(RNeg(Sq(Dist(lat, lon, G.lat[p], G.lon[p])) (/) s2))])
  IN RSum([p \in 1..N(G) |-> w[p] (.) data[p]]) (/) RSum(w)
C24(pre, e) ==
  IF ~Runs(e) \/ e.op # "display" THEN {} ELSE
  LET r == e.res  G == Grids[r.g]
      lo == RMinSeq(r.data)  hi == RMaxSeq(r.data)
      eps == (RAbs(lo) (+) RAbs(hi)) (.) "1e-9"
      D == DispGrid(r)
  IN V(r.shape = <<r.nlon, r.nlat>> /\ Len(r.lat) = r.nlat /\ Len(r.lon) = r.nlon, "shape")
     \cup V(r.unit = "True", "unit")
     \cup V(\A i \in 1..Len(r.lat) : AbsClose(r.lat[i], RectLat(D, i), "1e-9"), "latitude axis")
     \cup V(\A i \in 1..Len(r.lon) : AbsClose(r.lon[i], RectLon(D, (i - 1) * r.nlat + 1), "1e-9"), "longitude axis")
     \cup V(All(r.out, LAMBDA x : Within(x, lo (-) eps, hi (+) eps)), "value outside the range of the data")
     \cup V(IF G.kind = "rect" THEN \A p \in 1..Len(r.out) : Exactly(r.out[p], r.data[p])
            ELSE \A p \in 1..Len(r.out) :
                   AbsClose(r.out[p], Resampled(G, r.data, RectLat(D, p), RectLon(D, p)), (hi (-) lo) (.) "1e-5" (+) eps),
            "resampled value")

(* C25  light of a group of flares                                         *)
\* sampled where the curve jumps, rounding decides
Jumps(fl, t) == RSum([i \in 1..Len(fl) |->
  LET x == (t (-) fl[i].tp) (/) fl[i].fw
  IN IF AbsClose(x, "-1", "1e-7") \/ AbsClose(x, "20", "1e-7") \/ AbsClose(x, "0", "1e-7") THEN "0.009" (.) RAbs(fl[i].am) ELSE "0"])
C25(pre, e) ==
  IF ~Runs(e) \/ e.op # "lights" THEN {} ELSE
  LET r == e.res  fl == r.fl
      n == Odd(r.over)
      want(t) == IF r.exp THEN Exposed(fl, t, r.texp, n) ELSE Light(fl, t)
      slack(t) == (IF r.exp THEN RSum([k \in 1..n |-> Jumps(fl, Samples(t, r.texp, n)[k])]) (/) RInt(n) ELSE Jumps(fl, t))
                  (+) (RSum([i \in 1..Len(fl) |-> RAbs(fl[i].am)]) (.) "1e-8")
  IN V(Len(r.y) = Len(r.t) /\ r.shape = <<Len(r.t)>>, "one value per time")
     \cup V(Len(r.y) = Len(r.t) => \A i \in 1..Len(r.t) : AbsClose(r.y[i], want(r.t[i]), slack(r.t[i])),
            IF r.exp THEN "average over an exposure" ELSE "light of a group of flares")

(* C26  angles and positions on the sky                                    *)
C26(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "angles" THEN
    LET r == e.res  P == 1..Len(r.ps)
        \* the arc cosine of a rounded cosine
        want(i, k) == Dist(r.ps[i].lat, r.ps[i].lon, r.ps[k].lat, r.ps[k].lon)
        ok(x, i, k) == AbsClose(x, want(i, k), "1e-7") /\ Within(x, "0", Pi)
    IN V(\A i \in P, k \in P : ok(r.d[i][k], i, k), "angle between two places")
       \cup V(\A i \in P, k \in P : AbsClose(r.d[i][k], r.d[k][i], "1e-7"), "angle there and back")
       \cup V(\A i \in P : Len(r.arr[i]) = Len(r.ps) /\ \A k \in P : ok(r.arr[i][k], i, k), "angles to several places")
  ELSE IF e.op = "proj" THEN
    LET G == Grids[e.res.g]  v == e.res.v  r == e.res
        mu == Mus(v.lat, v.lon, G.lat, G.lon)
        d(p) == Dist(v.lat, v.lon, G.lat[p], G.lon[p])
    IN V(Len(r.x) = N(G) /\ Len(r.y) = N(G), "one position per point")
       \cup V(\A p \in 1..N(G) : mu[p] \succ "1e-9" =>
               AbsClose(Sq(r.x[p]) (+) Sq(r.y[p]), Sq(RSin(d(p))), "1e-7"), "distance from disk center")
       \cup V(\A p \in 1..N(G) : mu[p] \succ "1e-9" =>
               /\ AbsClose(r.x[p], ProjX(v.lat, v.lon, G.lat[p], G.lon[p]), Slack)
               /\ AbsClose(r.y[p], ProjY(v.lat, v.lon, G.lat[p], G.lon[p]), Slack), "sky projection")
       \cup V(\A p \in 1..N(G) : mu[p] \prec "-1e-9" => ~RFinite(r.x[p]) /\ ~RFinite(r.y[p]), "far side on the sky")
  ELSE {}

(* C27  what a spot covers of the hemisphere in sight                      *)
C27(pre, e) ==
  IF ~Runs(e) THEN {}
  ELSE IF e.op = "spot" THEN V(SpotSame(e.res.now, e.res.given), Asked)
  ELSE IF e.op = "fraction" THEN
    LET r == e.res
        a == SpotRadius(r.s, r.rad)
        h == Pi (/) RInt(r.n - 1)
        tol == (("0.35" (.) RSqrt(a)) (.) (h (.) RSqrt(h))) (+) "1e-6"
        c(x) == Dist(x.v.lat, x.v.lon, r.s.lat, r.s.lon)
    IN V(All(r.seen, LAMBDA x : RFinite(x.f) /\ x.f \succeq "0"), "share is no number")
       \cup V(All(r.seen, LAMBDA x : AbsClose(x.f, CapShare(c(x), a), tol)), "share of the hemisphere in sight")
       \cup V(All(r.seen, LAMBDA x : (c(x) (-) a) \succ "1.57079634" => Zero(x.f)), "spot behind the limb is seen")
       \cup V(\A i, k \in 1..Len(r.seen) : AbsClose(c(r.seen[i]), c(r.seen[k]), "1e-10") =>
               AbsClose(r.seen[i].f, r.seen[k].f, (h (.) "1e-3") (+) "1e-7"), "share depends on more than the angle")
  ELSE {}

(* C28  calls that are refused                                             *)
C28(pre, e) ==
  IF e.op = "pair" THEN V(PairExact(e), "a refused call changes what happens later")
  ELSE IF ~Runs(e) \/ e.op # "reject" THEN {}
  ELSE V(e.res.must => e.res.err # "", "call is not refused: " \o e.res.what)
       \cup V(e.res.err # "" => e.post = pre, "a refused call changes the star: " \o e.res.what)
       \cup V(e.res.err # "" => e.res.rng, "a refused call draws random numbers: " \o e.res.what)

(* C30  copies                                                              *)
C30(pre, e) ==
  IF e.op = "pair" THEN V(PairExact(e), "a copy has another future than the original")
  ELSE IF ~Runs(e) \/ e.op # "save" THEN {}
  ELSE V(e.post = pre, "copying changes the star, or what happens to a copy reaches the original")
       \cup V(e.res.copy = pre, "the copy is another star")
       \cup V(e.res.rng, "the copy draws other random numbers")
       \cup V(e.res.lone, "star and copy share random numbers")

(* C31  aging in parts                                                      *)
C31(pre, e) ==
  IF e.op # "pair" THEN {}
  ELSE V(PairNear(e, e.tol, e.tol), "a star aged in parts differs from the star aged at once")

(* C32  mirror images                                                       *)
\* event: g, ns / ew (which mirror), per-point arrays pa/pb, numbers na/nb
Mirrored(G, ns, ew, p) ==
  LET j == (p - 1) \div G.nlat  i == (p - 1) % G.nlat
  IN ((IF ew THEN (G.nlon - j) % G.nlon ELSE j) * G.nlat) + (IF ns THEN G.nlat - 1 - i ELSE i) + 1
C32(pre, e) ==
  IF e.op # "pair" THEN {} ELSE
  LET G == Grids[e.g]
  IN V(PairNear(e, "1e-6", e.tol), "what is seen changes in the mirror")
     \cup V(\A q \in 1..Len(e.pa) : \A p \in 1..N(G) :
              RClose(e.pa[q][p], e.pb[q][Mirrored(G, e.ns, e.ew, p)], "1e-6", e.ptol), "map or mask is not the mirror image")

(* C33  only ratios of lengths matter                                       *)
C33(pre, e) ==
  IF e.op # "pair" THEN {}
  ELSE V(PairNear(e, "1e-6", e.tol), "what is seen changes with the scale of all lengths")
       \cup V(\A q \in 1..Len(e.pa) : \A p \in 1..Len(e.pa[q]) : RClose(e.pa[q][p], e.pb[q][p], "1e-6", e.ptol),
              "map or mask changes with the scale of all lengths")

(* C29  stars do not know of each other                                    *)
C29(pre, e) == IF e.op = "pair" THEN V(PairExact(e), "a star depends on what happens to another") ELSE {}
=============================================================================
