------------------------------- MODULE MC_Two -------------------------------
(* All interleavings of changes of two stars (C29): each is what its own     *)
(* changes make of it.                                                       *)
EXTENDS Star, Json, IOUtils
Cat == JsonDeserialize("catalog.json")
Depth == CHOOSE n \in 0..9 : ToString(n) = IOEnv.DEPTH
VARIABLES stars, hist
vars == <<stars, hist>>
Ix(s) == 1..Len(s)
Who == {1, 2}
Tag(f, g) == [g |-> g] @@ f
Spot(i) == Tag(Cat.spots[i], 1)
Fac(i) == Tag(Cat.facs[i], 2)
Born(p, g) == NewStar(Cat.stars[p], <<Spot(1)>>, <<Fac(1)>>, g)
\* what one step does to the star it is about
Does(st, h) ==
  CASE h.op = "age" -> AgeStar(st, Cat.dts[h.i])
    [] h.op = "spot" -> AddSpots(st, <<Spot(h.i)>>)
    [] h.op = "fac" -> AddFacs(st, <<Fac(h.i)>>)
    [] h.op = "regrid" -> Regrid(st, h.i)
Init == \E p, q \in Ix(Cat.stars), g, k \in {1, 2} :
  /\ stars = [w \in Who |-> IF w = 1 THEN Born(p, g) ELSE Born(q, k)]
  /\ hist = <<[op |-> "star", i |-> p, g |-> g, w |-> 1], [op |-> "star", i |-> q, g |-> k, w |-> 2]>>
Steps == {[op |-> "age", i |-> i] : i \in {2, 4}} \cup {[op |-> "spot", i |-> i] : i \in {2, 3}}
         \cup {[op |-> "fac", i |-> 2]} \cup {[op |-> "regrid", i |-> i] : i \in {1, 3}}
Next == /\ Len(hist) - 2 < Depth
        /\ \E w \in Who, s \in Steps :
             /\ stars' = [stars EXCEPT ![w] = Does(@, s)]
             /\ hist' = Append(hist, [op |-> s.op, i |-> s.i, w |-> w])
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))
\* a star by itself
RECURSIVE Alone(_, _, _)
Alone(w, k, st) ==
  IF k > Len(hist) THEN st
  ELSE Alone(w, k + 1, IF hist[k].w # w THEN st ELSE IF hist[k].op = "star" THEN Born(hist[k].i, hist[k].g) ELSE Does(st, hist[k]))
Inv_C29 == \A w \in Who : stars[w] = Alone(w, 1, stars[w])
=============================================================================
