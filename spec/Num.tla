-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers, as strings holding an IEEE double ("0.52", "1.0E-9",      *)
(* "Infinity", "NaN").  TLC has 32-bit integers and no reals, so it        *)
(* evaluates these operators with the Java class of the same name          *)
(* (java/Num.java), the way it evaluates Integers.  Two strings may denote *)
(* the same number, so numbers are never compared with `='.                *)
(*                                                                         *)
(* Physical units everywhere in the specification: km, km^2, day, radian,  *)
(* kelvin, erg.                                                            *)
(***************************************************************************)
LOCAL Real == STRING
RAdd(x, y) == CHOOSE r \in Real : TRUE
RSub(x, y) == CHOOSE r \in Real : TRUE
RMul(x, y) == CHOOSE r \in Real : TRUE
RDiv(x, y) == CHOOSE r \in Real : TRUE
RNeg(x) == CHOOSE r \in Real : TRUE
RAbs(x) == CHOOSE r \in Real : TRUE
RMin(x, y) == CHOOSE r \in Real : TRUE
RMax(x, y) == CHOOSE r \in Real : TRUE
RSqrt(x) == CHOOSE r \in Real : TRUE
RSin(x) == CHOOSE r \in Real : TRUE
RCos(x) == CHOOSE r \in Real : TRUE
RTan(x) == CHOOSE r \in Real : TRUE
RAsin(x) == CHOOSE r \in Real : TRUE
RAcos(x) == CHOOSE r \in Real : TRUE
RExp(x) == CHOOSE r \in Real : TRUE
RLn(x) == CHOOSE r \in Real : TRUE
RLog10(x) == CHOOSE r \in Real : TRUE
RPow(x, y) == CHOOSE r \in Real : TRUE
RLt(x, y) == CHOOSE r \in BOOLEAN : TRUE
RLe(x, y) == CHOOSE r \in BOOLEAN : TRUE
RIsNaN(x) == CHOOSE r \in BOOLEAN : TRUE
RFinite(x) == CHOOSE r \in BOOLEAN : TRUE
\* |x - y| <= max(abs, rel * max(|x|, |y|)); FALSE when either is NaN
RClose(x, y, rel, abs) == CHOOSE r \in BOOLEAN : TRUE
RRound(x) == CHOOSE r \in Real : TRUE          \* to the nearest integer, ties to even
RCent(x) == CHOOSE r \in Real : TRUE           \* to two decimals, ties to even
RInt(n) == CHOOSE r \in Real : TRUE            \* TLA+ integer -> number
RFloor(x) == CHOOSE r \in STRING : TRUE        \* number -> TLA+ integer
RSum(s) == CHOOSE r \in Real : TRUE            \* of a sequence of numbers
RMaxSeq(s) == CHOOSE r \in Real : TRUE
RMinSeq(s) == CHOOSE r \in Real : TRUE
RSort(s) == CHOOSE r \in Real : TRUE           \* ascending
Force(v) == v                                  \* evaluated eagerly
Emit(line) == CHOOSE r \in BOOLEAN : TRUE      \* append a line to the scenario file; TRUE

x (+) y == RAdd(x, y)
x (-) y == RSub(x, y)
x (.) y == RMul(x, y)
x (/) y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
x \succ y == RLt(y, x)
x \succeq y == RLe(y, x)

Pi == "3.141592653589793"
HalfPi == "1.5707963267948966"
TwoPi == "6.283185307179586"
Clamp(x, lo, hi) == RMax(lo, RMin(hi, x))
Within(x, lo, hi) == lo \preceq x /\ x \preceq hi
Sq(x) == RMul(x, x)
\* equal up to rounding
Near(x, y) == RClose(x, y, "1e-9", "1e-12")
=============================================================================
