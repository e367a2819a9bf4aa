----------------------------- MODULE Granules -----------------------------
(***************************************************************************)
(* Granulation: a stationary Gaussian process around a mean coverage, cut  *)
(* to [0, 1].  Covariance of two points tau hours apart, amplitude s,      *)
(* period p hours:  s/p exp(-z) cos(z - pi/4),  z = tau/(p sqrt 2).        *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

Z(tau, p) == tau (/) (p (.) RSqrt("2"))
GCov(s, p, tau) ==
  ((s (/) p) (.) RExp(RNeg(Z(tau, p)))) (.) RCos(Z(tau, p) (-) (Pi (/) "4"))
GStd(s, p) == RSqrt(GCov(s, p, "0"))
=============================================================================
