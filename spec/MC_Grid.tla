------------------------------ MODULE MC_Grid ------------------------------
(* All small grids (C11), and resampling on them (C24).                     *)
EXTENDS Star, Json, IOUtils
Depth == CHOOSE n \in 0..99 : ToString(n) = IOEnv.DEPTH
VARIABLES g, hist
vars == <<g, hist>>
Init == g \in {[kind |-> "spiral", n |-> 1], [kind |-> "rect", nlat |-> 3, nlon |-> 1]} /\ hist = <<g>>
Next == /\ \/ g.kind = "spiral" /\ g.n < 5 * Depth /\ g' = [g EXCEPT !.n = @ + 1]
           \/ g.kind = "rect" /\ g.nlat < Depth /\ g' = [g EXCEPT !.nlat = @ + 1]
           \/ g.kind = "rect" /\ g.nlon < Depth /\ g' = [g EXCEPT !.nlon = @ + 1]
        /\ hist' = <<g'>>
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))
La == GridLats(g)
Lo == GridLons(g)
Pix == 1..NPix(g)
Close(x, y) == RClose(x, y, "0", "1e-9")
Inv_C11 ==
  LET la == La  lo == Lo  ar == Areas(g, la)
  IN /\ Len(la) = NPix(g) /\ Len(lo) = NPix(g)
     /\ Close(RSum(ar), "1")
     /\ \A p \in Pix : /\ Within(la[p], "-1.5707963268", "1.5707963268") /\ Within(lo[p], "0", "6.2831853072") /\ ar[p] \succeq "0"
                       /\ Close(CosBetween(la[p], lo[p], la[p], lo[p]), "1")
     \* what is seen from a place is not seen from the opposite one
     /\ \A p \in Pix : Close(CosBetween("0.3", "1", la[p], lo[p]) (+) CosBetween("-0.3", "4.141592653589793", la[p], lo[p]), "0")
     \* distance and cosine agree
     /\ \A p \in Pix : Close(RCos(Dist("0.3", "1", la[p], lo[p])), CosBetween("0.3", "1", la[p], lo[p]))
\* angles: symmetric, zero to itself, half a turn to the opposite place, no longer than any detour; the sky position lies
\* at the sine of the angle from the center
Inv_C26 ==
  LET la == La  lo == Lo
      a(p, q) == Angle(la[p], lo[p], la[q], lo[q])
      some == {p \in Pix : p % (1 + (NPix(g) \div 5)) = 1 % (1 + (NPix(g) \div 5))}
      c == <<"0.3", "1">>
  IN /\ \A p \in some, q \in some :
          /\ RClose(a(p, q), a(q, p), "0", "1e-12") /\ Within(a(p, q), "0", Pi)
          /\ RClose(a(p, q), Dist(la[p], lo[p], la[q], lo[q]), "0", "1e-7")
          /\ RClose(a(p, q) (+) Angle(la[p], lo[p], RNeg(la[q]), lo[q] (+) Pi), Pi, "0", "1e-7")
          /\ \A r \in some : a(p, q) \preceq ((a(p, r) (+) a(r, q)) (+) "1e-7")
     /\ \A p \in Pix :
          LET d == Dist(c[1], c[2], la[p], lo[p])
              x == ProjX(c[1], c[2], la[p], lo[p])  y == ProjY(c[1], c[2], la[p], lo[p])
          IN RClose(Sq(x) (+) Sq(y), Sq(RSin(d)), "0", "1e-9")
\* a weighted average of equal values is that value, and lies within the extremes otherwise
Inv_C24 == g.kind = "spiral" =>
  LET la == La  lo == Lo
      s2 == ("4" (.) Pi) (/) RInt(g.n)
      w(la0, lo0) == Force([p \in Pix |-> RExp(RNeg(Sq(Dist(la0, lo0, la[p], lo[p])) (/) s2))])
      avg(la0, lo0, d) == LET x == w(la0, lo0) IN RSum([p \in Pix |-> x[p] (.) d[p]]) (/) RSum(x)
  IN \A c \in {<<"0", "0">>, <<"1.2", "3">>, <<"-1.5707963267948966", "5">>} :
       /\ Close(avg(c[1], c[2], [p \in Pix |-> "7"]), "7")
       /\ Within(avg(c[1], c[2], la), RMinSeq(la) (-) "1e-9", RMaxSeq(la) (+) "1e-9")
=============================================================================
