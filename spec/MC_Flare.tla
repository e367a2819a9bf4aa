------------------------------ MODULE MC_Flare ------------------------------
(* A flare watched through consecutive windows (C16, C17), and the energies *)
(* flares are drawn from (C15).                                             *)
EXTENDS Star, Json, IOUtils
Cat == JsonDeserialize("catalog.json")
Depth == CHOOSE n \in 0..9 : ToString(n) = IOEnv.DEPTH
VARIABLES f, t0, t, acc, hist
vars == <<f, t0, t, acc, hist>>
Ix(s) == 1..Len(s)
Starts == Cat.starts
Init == \E i \in Ix(Cat.flares), s \in Ix(Starts) :
  /\ f = Cat.flares[i] /\ t0 = Starts[s] /\ t = t0 /\ acc = "0"
  /\ hist = <<[op |-> "flare", i |-> i, s |-> s]>>
Next == /\ Len(hist) <= Depth
        /\ \E c \in Ix(Cat.cuts) :
             /\ t' = t (+) Cat.cuts[c]
             /\ acc' = acc (+) TimeArea(f, t, t')
             /\ hist' = Append(hist, [op |-> "cut", i |-> c])
        /\ UNCHANGED <<f, t0>>
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))
Whole == (PeakArea(f) (.) f.fwhm) (.) Unit
\* the windows add up; no more than the flare has; nothing from a silent flare
Inv_C16 == /\ RClose(acc, TimeArea(f, t0, t), "1e-9", Whole (.) "1e-9")
           /\ acc \succeq "0" /\ acc \preceq (Whole (.) "1.000000001")
           /\ Silent(f, t0, t) => RClose(acc, "0", "0", Whole (.) "1e-9")
           /\ ~(Silent(f, t0, t) /\ Emits(f, t0, t))
           /\ \A v \in {Cat.views[i] : i \in Ix(Cat.views)} : ~(OnDisk(f, v) /\ FarSide(f, v))
\* never negative, never above the peak, radiates the flare's energy
Inv_C17 == /\ Within(Curve(X(f, t)), "0", "1.0000001")
           /\ RClose(((Whole (.) Sigma) (.) Sq(Sq(f.T))), f.e, "1e-9", "0")
           /\ RClose(Area(f, f.tp), PeakArea(f), "1e-9", "0")
           /\ RClose(Area([f EXCEPT !.e = @ (.) "3"], t), "3" (.) Area(f, t), "1e-9", "1e-9")
\* the light of a group is the sum of its members', an exposure lies between its extremes and tends to the mean
Group == Force([i \in Ix(Cat.flares) |-> [tp |-> Cat.flares[i].tp, fw |-> Cat.flares[i].fwhm, am |-> RInt(i)]])
Inv_C25 ==
  LET x == "0.2"
      s == Force([k \in 1..9 |-> Light(Group, Samples(t, x, 9)[k])])
      me == <<[tp |-> f.tp, fw |-> f.fwhm, am |-> "1"]>>
      n == 201
  IN /\ RClose(Light(Group, t), RSum([i \in Ix(Group) |-> Light(<<Group[i]>>, t)]), "1e-12", "1e-12")
     /\ RClose(Light(<<Group[1], Group[2]>>, t), Light(<<Group[2], Group[1]>>, t), "1e-12", "1e-12")
     /\ Within(Exposed(Group, t, x, 9), RMinSeq(s) (-) "1e-12", RMaxSeq(s) (+) "1e-12")
     /\ RClose(Exposed(Group, t, "0", 3), Light(Group, t), "1e-9", "1e-12")
     /\ Odd(7) = 7 /\ Odd(4) = 5 /\ Odd(1) = 1
     /\ RClose(Exposed(me, t, x, n), (f.fwhm (/) x) (.) (CurveInt(X(f, t (+) "0.1")) (-) CurveInt(X(f, t (-) "0.1"))), "0", "0.02")
\* quantiles invert the cumulative distribution, whose slope is the density; fewer flares above more energy
Inv_C15 == \A i \in Ix(Cat.flaregens), x \in {"0", "0.25", "0.9", "0.9999"} :
  LET g == Cat.flaregens[i]
      q == Quantile(g, x)
      h == q (.) "1e-6"
  IN /\ q \succeq (g.emin (.) "0.999999999")
     /\ RClose(Cdf(g, q), x, "0", "1e-9")
     /\ RClose((Cdf(g, q (+) h) (-) Cdf(g, q)) (/) h, Pdf(g, q), "1e-3", "0")
     /\ Rate(g, q (.) "2") \prec Rate(g, q)
     /\ RClose(Rate(g, q), Rate(g, g.emin) (.) ("1" (-) x), "1e-6", "0")
=============================================================================
