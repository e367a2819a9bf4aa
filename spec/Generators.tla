---------------------------- MODULE Generators ----------------------------
(***************************************************************************)
(* Birth of new features.                                                  *)
(* spot generator:   mean sig tu tp gr dr init dist cov                    *)
(* facula generator: rp rsig depth life lsig fs fmin fb ws wi cov          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

E2inv == RExp("-2")
Sphere(rad) == ("4" (.) Pi) (.) Sq(rad)

Static(g) == RClose(g.dr, "0", "0", "0")
\* a typical spot grows from init to mean at the rate gr, then decays to nothing
SpotLife(g) ==
  IF Static(g) THEN "Infinity"
  ELSE (g.mean (/) g.dr) (+) (RLn(g.mean (/) g.init) (/) g.gr)
SpotMeanArea(g) ==
  IF Static(g) THEN g.mean
  ELSE (((g.mean (-) g.init) (/) g.gr) (+) (Sq(g.mean) (/) ("2" (.) g.dr))) (/) SpotLife(g)
SpotsExpected(g, rad, t) ==
  IF Static(g) THEN "0"
  ELSE ((g.cov (.) Sphere(rad)) (.) t) (/) (SpotMeanArea(g) (.) SpotLife(g))

\* a typical facula spends its lifetime between rp/e^2 and rp, twice
FacMeanArea(g) == (("0.5" (.) Pi) (.) ("1" (-) E2inv)) (.) Sq(g.rp)
FacsExpected(g, rad, t) ==
  ((g.cov (.) Sphere(rad)) (.) t) (/) (FacMeanArea(g) (.) ("2" (.) g.life))

\* The number n drawn for the mean m is plausible: the Poisson tail beyond n, by
\* Chernoff at most exp(-(n ln(n/m) - n + m)), is above 3e-10.
Unlikely == "22"
Plausible(n, m) ==
  IF m \preceq "0" THEN RClose(n, "0", "0", "0")
  ELSE IF n \preceq "0" THEN m \preceq Unlikely
  ELSE (((n (.) RLn(n (/) m)) (-) n) (+) m) \preceq Unlikely
\* k of n draws in an event of probability q is plausible (the same, for the binomial tail)
BinomOK(k, n, q) ==
  LET x == RInt(k) (/) RInt(n)
      part(y, p) == IF y \preceq "0" THEN "0" ELSE y (.) RLn(y (/) p)
  IN (RInt(n) (.) (part(x, q) (+) part("1" (-) x, "1" (-) q))) \preceq Unlikely
Below(s, x) == Cardinality({i \in 1..Len(s) : s[i] \preceq x})
\* draws uniform in [0,1]
UnitBins == <<"0.001", "0.005", "0.01", "0.1", "0.2", "0.3", "0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "0.99", "0.995", "0.999">>
UniformOK(s) ==
  \/ Len(s) = 0
  \/ /\ \A i \in 1..Len(s) : Within(s[i], "-1e-9", "1.000000001")
     /\ \A b \in 1..Len(UnitBins) : BinomOK(Below(s, UnitBins[b]), Len(s), UnitBins[b])
\* draws standard normal
NormBins == <<<<"-3.0902323", "0.001">>, <<"-2.6", "0.004661188">>, <<"-2.3263479", "0.01">>, <<"-1.2815516", "0.1">>, <<"-0.6744898", "0.25">>, <<"0", "0.5">>,
              <<"0.6744898", "0.75">>, <<"1.2815516", "0.9">>, <<"2.3263479", "0.99">>, <<"2.6", "0.995338812">>, <<"3.0902323", "0.999">>>>
NormalOK(s) ==
  \/ Len(s) = 0
  \/ \A b \in 1..Len(NormBins) : BinomOK(Below(s, NormBins[b][1]), Len(s), NormBins[b][2])
\* z scores of draws with mean m and deviation d (all of them at m when d is zero)
ScoresOK(s, m, d) ==
  IF d \preceq "0" THEN \A i \in 1..Len(s) : RClose(s[i], m, "1e-7", "1e-9")
  ELSE NormalOK(Force([i \in 1..Len(s) |-> (s[i] (-) m) (/) d]))
\* the average of n draws with mean m and deviation s is plausible
MeanOK(avg, n, m, s) == RAbs(avg (-) m) \preceq (("6.5" (.) s) (/) RSqrt(RInt(n)))
Avg(s) == RSum(s) (/) RInt(Len(s))
\* dispersion of counts around their mean: a Poisson variable has variance/mean = 1
Dispersion(c, m) ==
  RSum([i \in 1..Len(c) |-> Sq(RInt(c[i]) (-) m)]) (/) (RInt(Len(c)) (.) m)
DispersionOK(c, m) ==
  RAbs(Dispersion(c, m) (-) "1")
    \preceq ("7" (.) RSqrt(("2" (+) ("1" (/) m)) (/) RInt(Len(c))))
Total(c) == RSum([i \in 1..Len(c) |-> RInt(c[i])])
=============================================================================
