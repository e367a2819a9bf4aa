------------------------------ MODULE MC_Life ------------------------------
(* All sequences of time steps in the life of one spot (C05) or facula (C06). *)
EXTENDS Star, Json, IOUtils
Cat == JsonDeserialize("catalog.json").lives
Depth == CHOOSE n \in 0..9 : ToString(n) = IOEnv.DEPTH
VARIABLES kind, born, now, age, hist
vars == <<kind, born, now, age, hist>>
Ix(s) == 1..Len(s)
Init == /\ age = "0"
        /\ \/ kind = "spot" /\ \E i \in Ix(Cat.spots) : now = Cat.spots[i] /\ hist = <<[op |-> "spot", i |-> i]>>
           \/ kind = "fac" /\ \E i \in Ix(Cat.facs) : now = Cat.facs[i] /\ hist = <<[op |-> "fac", i |-> i]>>
        /\ born = now
Next == /\ Len(hist) <= Depth
        /\ \E i \in Ix(Cat.dts) :
             /\ now' = IF kind = "spot" THEN SpotAge(now, Cat.dts[i]) ELSE FacAge(now, Cat.dts[i])
             /\ age' = age (+) Cat.dts[i]
             /\ hist' = Append(hist, [op |-> "age", i |-> i])
        /\ UNCHANGED <<kind, born>>
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))
\* within bounds, and the same as aging once by the sum of the steps
Inv_C05 == kind = "spot" =>
  LET z == SpotAge(born, age)
  IN /\ Within(now.a, "0", now.amax)
     /\ RClose(now.a, z.a, "1e-9", "1")
     /\ now.grow = z.grow \/ SpotTurnsAt(born, age) \/ RClose(now.a, now.amax, "1e-9", "0")
     /\ now.grow => born.grow
\* what the spot covers: nothing behind the limb; as cos(c0) while all of it is in sight; more when it is larger
Inv_C27 == kind = "spot" =>
  LET a == SpotRadius(now, "104355")
      b == SpotRadius([now EXCEPT !.a = @ (.) "1.2"], "104355")
      s(c) == CapShare(c, a)
  IN \A c \in {"0", "0.4", "1.2", "1.7", "2.5", "3.141592653589793"} :
       /\ s(c) \succeq "-1e-12" /\ s(c) \preceq "1"
       /\ s(c) \preceq (CapShare(c, b) (+) "1e-12")
       /\ ((c (-) a) \succeq HalfPi) => RClose(s(c), "0", "0", "1e-12")
       /\ ((c (+) a) \preceq HalfPi) => RClose(s(c), RCos(c) (.) s("0"), "1e-6", "1e-12")
       /\ (a \preceq "0.02") => RClose(s("0"), "0.5" (.) Sq(a), "1e-3", "1e-12")
Inv_C06 == kind = "fac" =>
  LET z == FacAge(born, age)
  IN /\ now.r \succ "0" /\ now.r \preceq (now.rmax (.) "1.000000001")
     /\ RClose(now.r, z.r, "1e-9", "0")
     /\ now.grow = z.grow \/ FacTurnsAt(born, age) \/ RClose(now.r, now.rmax, "1e-9", "0")
     /\ now.grow => born.grow
=============================================================================
