----------------------------- MODULE MC_Planet -----------------------------
(* A planet going around its orbit (C04): where it is seen, where it hides. *)
EXTENDS Star, Json, IOUtils
File == JsonDeserialize("catalog.json")
Cat == File.orbit
Depth == CHOOSE n \in 0..999 : ToString(n) = IOEnv.DEPTH
VARIABLES pl, k, hist
vars == <<pl, k, hist>>
Ix(s) == 1..Len(s)
St == File.stars[1]
Phase(i) == (TwoPi (.) RInt(i)) (/) RInt(Cat.steps)
Init == /\ k = 0
        /\ \E a \in Ix(Cat.a), r \in Ix(Cat.r), i \in Ix(Cat.inc) :
             /\ pl = [a |-> Cat.a[a], r |-> Cat.r[r], inc |-> Cat.inc[i], phase |-> "0"]
             /\ hist = <<[a |-> a, r |-> r, inc |-> i]>>
Next == /\ k < Depth
        /\ k' = k + 1
        /\ pl' = [pl EXCEPT !.phase = Phase(k + 1)]
        /\ hist' = Append(hist, [k |-> k + 1])
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))
Seen == PlanetSeen(St, pl)
Inv_C04 ==
  /\ Within(Seen, "0", "1")
  /\ Side(pl) = 1 => Seen = "1"
  /\ (Side(pl) = -1 /\ PlD(St, pl) \succ ("1" (+) PlR(St, pl))) => RClose(Seen, "1", "0", "1e-12")
  /\ (Side(pl) = -1 /\ PlD(St, pl) \prec ("1" (-) PlR(St, pl))) => RClose(Seen, "0", "0", "1e-12")
  \* the orbit is symmetric about the line of sight
  /\ LET q == [pl EXCEPT !.phase = TwoPi (-) @] IN RClose(Behind(St, q), Behind(St, pl), "0", "1e-9")
  \* farther out, more of it is seen
  /\ LET q == [pl EXCEPT !.a = @ (.) "1.2"] IN Behind(St, q) \succeq (Behind(St, pl) (-) "1e-9")
=============================================================================
