-------------------------------- MODULE Star --------------------------------
(***************************************************************************)
(* The star as a state machine.  State: a record                           *)
(*   teff rad u1 u2 gdt       parameters                                   *)
(*   g sg fg                  grid of the star, of its spots, its faculae  *)
(*   spots facs flares        sequences of features, each with its grid g  *)
(* Every public mutator is a function from state to state; the model       *)
(* checker's actions (MC_*.tla) and the trace specification (Trace.tla)    *)
(* both use the definitions below.                                         *)
(***************************************************************************)
EXTENDS Surface, Flares

----------------------------------------------------------------------------
(* Transitions *)
Aged(st, dt) ==
  [st EXCEPT !.spots = Force([i \in 1..Len(@) |-> SpotAge(@[i], dt)]),
             !.facs = Force([i \in 1..Len(@) |-> FacAge(@[i], dt)])]
Pruned(st) ==
  [st EXCEPT !.spots = SelectSeq(@, LAMBDA s : ~SpotGone(s)),
             !.facs = SelectSeq(@, LAMBDA f : ~FacGone(f))]
\* time passes: everything ages once, what is gone is dropped
AgeStar(st, dt) == Pruned(Aged(st, dt))

OnGrid(seq, g) == Force([i \in 1..Len(seq) |-> [seq[i] EXCEPT !.g = g]])
\* features added take the grid of the collection they join
AddSpots(st, new) == [st EXCEPT !.spots = @ \o OnGrid(new, st.sg)]
AddFacs(st, new) == [st EXCEPT !.facs = @ \o OnGrid(new, st.fg)]
\* everything moves to another grid
Regrid(st, g) ==
  [st EXCEPT !.g = g, !.sg = g, !.fg = g, !.spots = OnGrid(@, g), !.facs = OnGrid(@, g)]
\* a star takes over collections built elsewhere
NewStar(par, spots, facs, g) ==
  [teff |-> par.teff, rad |-> par.rad, u1 |-> par.u1, u2 |-> par.u2, gdt |-> par.gdt,
   g |-> g, sg |-> g, fg |-> g, spots |-> OnGrid(spots, g), facs |-> OnGrid(facs, g), flares |-> <<>>]

\* a call is carried out, or refused and then changes nothing
Try(ok, after, st) == IF ok THEN after ELSE st
CoverageOK(c) == Within(c, "0", "1")

\* a copy is an equal star with a future of its own
Copy(st) == st
Forked(st, F(_)) == [original |-> st, copy |-> F(Copy(st))]

----------------------------------------------------------------------------
(* The same transitions as relations on observed states, where rounding    *)
(* may decide a tie either way.                                            *)
KeysNear(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i])

SpotSame(x, y) ==
  /\ KeysNear(SpotKey(x), SpotKey(y))
  /\ RClose(x.a, y.a, "1e-9", x.amax (.) "1e-10")
  /\ x.grow = y.grow
\* y is what becomes of x after dt
SpotAgedTo(x, y, dt) ==
  /\ KeysNear(SpotKey(x), SpotKey(y))
  /\ LET z == SpotAge(x, dt)
     IN /\ RClose(z.a, y.a, "1e-9", x.amax (.) "1e-9")
        /\ z.grow = y.grow \/ SpotTurnsAt(x, dt)
FacSame(x, y) == KeysNear(FacKey(x), FacKey(y)) /\ Near(x.r, y.r) /\ x.grow = y.grow
FacAgedTo(x, y, dt) ==
  /\ KeysNear(FacKey(x), FacKey(y))
  /\ LET z == FacAge(x, dt)
     IN /\ RClose(z.r, y.r, "1e-8", "0")
        /\ z.grow = y.grow \/ FacTurnsAt(x, dt)

\* post is pre (n long) without some of `tie' and all of `gone'; ok[<<i, k>>]: post[k] may be what became of pre[i]
RECURSIVE Survivors(_, _, _, _, _, _, _)
Survivors(n, m, tie, gone, ok, i, k) ==
  IF i > n THEN k > m
  ELSE IF i \in gone THEN Survivors(n, m, tie, gone, ok, i + 1, k)
  ELSE \/ k <= m /\ ok[<<i, k>>] /\ Survivors(n, m, tie, gone, ok, i + 1, k + 1)
       \/ i \in tie /\ Survivors(n, m, tie, gone, ok, i + 1, k)
SpotsAgedTo(pre, post, dt) ==
  LET left == Force([i \in 1..Len(pre) |-> SpotLeft(pre[i], dt)])
      eps(i) == "1e-9" (.) pre[i].amax
      \* no rounding: it had gone before, or no time passed
      sure(i) == ~pre[i].grow /\ (pre[i].a \preceq "0" \/ dt \preceq "0")
      tie == {i \in 1..Len(pre) : ~sure(i) /\ (\/ left[i] # "grows" /\ RClose(left[i], "0", "0", eps(i))
                                               \/ SpotTurnsAt(pre[i], dt) /\ pre[i].amax \preceq "0")}
      gone == {i \in (1..Len(pre)) \ tie : left[i] # "grows" /\ left[i] \preceq "0"}
  IN Survivors(Len(pre), Len(post), tie, gone,
               [x \in (1..Len(pre)) \X (1..Len(post)) |-> SpotAgedTo(pre[x[1]], post[x[2]], dt)], 1, 1)
FacsAgedTo(pre, post, dt) ==
  LET z == Force([i \in 1..Len(pre) |-> FacAge(pre[i], dt)])
      tie == {i \in 1..Len(pre) : FacMaybe(z[i])}
      gone == {i \in (1..Len(pre)) \ tie : FacGone(z[i])}
  IN Survivors(Len(pre), Len(post), tie, gone,
               [x \in (1..Len(pre)) \X (1..Len(post)) |-> FacAgedTo(pre[x[1]], post[x[2]], dt)], 1, 1)

SpotsSame(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SpotSame(x[i], y[i])
FacsSame(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : FacSame(x[i], y[i])
ParSame(x, y) == \A k \in {"teff", "rad", "u1", "u2", "gdt"} : Near(x[k], y[k])
=============================================================================
