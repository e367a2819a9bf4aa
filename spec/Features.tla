------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* The life of a single surface feature.                                   *)
(*                                                                         *)
(* spot:   lat lon amax a tu tp ratio grow gr dr                           *)
(*   area `a' grows by the fraction gr per day until it reaches amax, then *)
(*   shrinks by dr per day until nothing is left.                          *)
(* facula: lat lon rmax r depth life fs fmin fb ws wi grow                 *)
(*   radius `r' grows by a factor e per half lifetime until it reaches     *)
(*   rmax, then shrinks at the same pace.                                  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

----------------------------------------------------------------------------
(* Spots *)
SpotTau(s) == RLn("1" (+) s.gr)

\* time until the maximum is reached
SpotToMax(s) ==
  IF RClose(SpotTau(s), "0", "0", "0") THEN "Infinity"
  ELSE RLn(s.amax (/) s.a) (/) SpotTau(s)

SpotAge(s, dt) ==
  IF s.grow
  THEN IF SpotToMax(s) \succ dt
       THEN [s EXCEPT !.a = s.a (.) RExp(SpotTau(s) (.) dt)]
       ELSE [s EXCEPT !.grow = FALSE,
                      !.a = RMax("0", s.amax (-) (s.dr (.) (dt (-) SpotToMax(s))))]
  ELSE [s EXCEPT !.a = RMax("0", s.a (-) (s.dr (.) dt))]

\* what is left of a decaying spot, below zero when it was gone before the end of dt
SpotLeft(s, dt) ==
  IF ~s.grow THEN s.a (-) (s.dr (.) dt)
  ELSE IF SpotToMax(s) \succ dt THEN "grows"
  ELSE s.amax (-) (s.dr (.) (dt (-) SpotToMax(s)))

\* the step from growth to decay falls on the end of dt, up to rounding
SpotTurnsAt(s, dt) == s.grow /\ RClose(SpotToMax(s), dt, "1e-9", "1e-9")

SpotGone(s) == ~s.grow /\ s.a \preceq "0"
\* parameters that never change
SpotKey(s) == <<s.lat, s.lon, s.amax, s.tu, s.tp, s.ratio, s.gr, s.dr>>

\* angle from the center to the edge of the cap with the spot's area
SpotRadius(s, rad) == RAcos(Clamp("1" (-) (s.a (/) (TwoPi (.) Sq(rad))), "-1", "1"))
UmbraRadius(s, rad) == SpotRadius(s, rad) (/) RSqrt(s.ratio)

----------------------------------------------------------------------------
(* Faculae *)
FacToMax(f) == RNeg(RLn(f.r (/) f.rmax)) (.) ("0.5" (.) f.life)

FacAge(f, dt) ==
  LET shrink(r, t) == r (.) RExp(RNeg("2" (.) t) (/) f.life)
  IN IF f.grow
     THEN IF FacToMax(f) \preceq dt
          THEN [f EXCEPT !.grow = FALSE, !.r = shrink(f.rmax, dt (-) FacToMax(f))]
          ELSE [f EXCEPT !.r = f.r (.) RExp(("2" (.) dt) (/) f.life)]
     ELSE [f EXCEPT !.r = shrink(f.r, dt)]

FacTurnsAt(f, dt) == f.grow /\ RClose(FacToMax(f), dt, "1e-9", "1e-9")

E2 == RExp("2")
FacGone(f) == ~f.grow /\ f.r \preceq (f.rmax (/) E2)
FacMaybe(f) == ~f.grow /\ RClose(f.r, f.rmax (/) E2, "1e-9", "0")

FacKey(f) == <<f.lat, f.lon, f.rmax, f.depth, f.life, f.fs, f.fmin, f.fb, f.ws, f.wi>>

FacRadius(f, rad) == f.r (/) rad           \* as an angle

\* temperature excess of wall and floor over the photosphere, whole kelvins
WallDT(f) == (f.ws (.) f.r) (+) f.wi
FloorDT(f) == ((f.r (-) f.fmin) (.) f.fs) (+) f.fb
WallDTr(f) == RRound(WallDT(f))
FloorDTr(f) == RRound(FloorDT(f))
\* a rounding whose outcome hangs on the last bit
Tie(x) == RClose(RAbs(x (-) RRound(x)), "0.5", "0", "1e-6")

\* share of the facula's projected area taken by the hot wall, seen `ang' from
\* disk center: all of it when the facula is too small to show a floor,
\* otherwise what the floor's disk, shifted by depth * tan(ang), leaves free
WallShare(f, ang, Overlap(_, _)) ==
  IF f.r \prec f.fmin THEN "1"
  ELSE "1" (-) Overlap(RAbs((f.depth (/) f.r) (.) RTan(ang)), "1")
=============================================================================
