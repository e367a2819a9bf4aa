------------------------------- MODULE Flares -------------------------------
(***************************************************************************)
(* Flares: a light curve of fixed shape, scaled by the flare's energy.     *)
(* flare: fwhm e lat lon T tp  (day, erg, radian, kelvin, day)             *)
(***************************************************************************)
EXTENDS Geometry

\* energy radiated by 1 km^2 at 1 K^4 in a day, erg (Stefan-Boltzmann)
Sigma == "48992034981.753494"

\* area in units of the peak area, x = (t - tp) / fwhm
Rise(x) == ("1" (+) ("1.94053" (.) x)) (+)
           ((RMul("-0.175084", Sq(x)) (-) ("2.24588" (.) (x (.) Sq(x)))) (-) ("1.12498" (.) Sq(Sq(x))))
Decay(x) == ("0.689008" (.) RExp("-1.60053" (.) x)) (+) ("0.302963" (.) RExp("-0.278318" (.) x))
Curve(x) == IF x \preceq "-1" \/ x \succeq "20" THEN "0"
            ELSE IF x \preceq "0" THEN Rise(x) ELSE Decay(x)

\* integral of Curve from -1 to x
RiseInt(x) ==
  LET F(z) == (z (+) ("0.970265" (.) Sq(z))) (+)
              ((RNeg("0.175084" (/) "3") (.) (z (.) Sq(z))) (-) (("0.56147" (.) Sq(Sq(z)))
                (+) ("0.224996" (.) (z (.) Sq(Sq(z))))))
  IN F(x) (-) F("-1")
DecayInt(x) ==
  LET F(z) == (("0.689008" (/) "-1.60053") (.) RExp("-1.60053" (.) z))
              (+) (("0.302963" (/) "-0.278318") (.) RExp("-0.278318" (.) z))
  IN F(x) (-) F("0")
CurveInt(x) ==
  IF x \preceq "-1" THEN "0"
  ELSE IF x \preceq "0" THEN RiseInt(x)
  ELSE RiseInt("0") (+) DecayInt(RMin(x, "20"))
Unit == CurveInt("20")

\* the area that radiates the flare's energy over its life
PeakArea(f) == ((f.e (/) Sigma) (/) Sq(Sq(f.T))) (/) (Unit (.) f.fwhm)
X(f, t) == (t (-) f.tp) (/) f.fwhm
Area(f, t) == PeakArea(f) (.) Curve(X(f, t))
\* area integrated over a window
TimeArea(f, t0, t1) == (PeakArea(f) (.) f.fwhm) (.) (CurveInt(X(f, t1)) (-) CurveInt(X(f, t0)))

\* emits at some time of the window; does not emit at all in it
Emits(f, t0, t1) == X(f, t0) \prec "19.999999" /\ X(f, t1) \succ "-0.999999"
Silent(f, t0, t1) == X(f, t0) \succ "20.000001" \/ X(f, t1) \prec "-1.000001"
OnDisk(f, v) == CosBetween(f.lat, f.lon, v.lat, v.lon) \succ "1e-9"
FarSide(f, v) == CosBetween(f.lat, f.lon, v.lat, v.lon) \prec "-1e-9"

----------------------------------------------------------------------------
(* The light of a group of flares, each [tp, fw, am]: peak, width, height. *)
Light(fl, t) == RSum([i \in 1..Len(fl) |-> fl[i].am (.) Curve((t (-) fl[i].tp) (/) fl[i].fw)])
\* an exposure of length x around t is sampled at an odd number of equally spaced times
Odd(n) == n + 1 - (n % 2)
Samples(t, x, n) ==
  IF n = 1 THEN <<t (-) ("0.5" (.) x)>>
  ELSE Force([k \in 1..n |-> t (+) (x (.) ((RInt(k - 1) (/) RInt(n - 1)) (-) "0.5"))])
Exposed(fl, t, x, n) == RSum([k \in 1..n |-> Light(fl, Samples(t, x, n)[k])]) (/) RInt(n)

----------------------------------------------------------------------------
(* Rates and energies: g = [alpha, beta, emin, ...]                        *)
\* flares per day above energy e (which may be infinite)
Rate(g, e) == IF RFinite(e) THEN RPow("10", g.beta (+) (g.alpha (.) RLog10(e))) ELSE "0"
Cdf(g, e) == "1" (-) RPow(e (/) g.emin, g.alpha)
Pdf(g, e) == (RNeg(g.alpha) (.) RPow(e (/) g.emin, g.alpha)) (/) e
Quantile(g, x) == g.emin (.) RPow("1" (-) x, "1" (/) g.alpha)
=============================================================================
