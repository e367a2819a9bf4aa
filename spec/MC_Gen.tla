------------------------------- MODULE MC_Gen -------------------------------
(* Births (C12), mature spots (C13), and two runs from one seed (C14).      *)
(* The random generator is a function of seed and number of draws made.     *)
EXTENDS Star, Generators, Json, IOUtils
Cat == JsonDeserialize("catalog.json")
Depth == CHOOSE n \in 0..9 : ToString(n) = IOEnv.DEPTH
Ix(s) == 1..Len(s)
VARIABLES gen, seed, pos, pop, omega, target, last, twin, hist
vars == <<gen, seed, pos, pop, omega, target, last, twin, hist>>
Rad == Cat.stars[1].rad
\* stands for a draw in 0..7; any function of seed and position will do
Draw(s, p) == (s * 5 + p * p * 3 + p) % 8
\* area of the spot made from one draw
Size(g, d) == g.init (+) ((g.mean (-) g.init) (.) (RInt(d) (/) "7"))
Solid(a) == Pi (.) Sq(SpotRadius([a |-> a], Rad))
Init == /\ gen \in Ix(Cat.spotgens) /\ \E s \in Ix(Cat.births.seeds) : seed = Cat.births.seeds[s]
        /\ pos = 0 /\ pop = 0 /\ omega = "0" /\ target = "0" /\ last = "0" /\ twin = <<0, 0>>
        /\ hist = <<[op |-> "gen", i |-> gen, s |-> seed]>>
G == Cat.spotgens[gen]
\* a number of births drawn around the expected number
Birth(i) == LET m == SpotsExpected(G, Rad, Cat.births.dts[i])
                n == IF m \preceq "0" THEN 0 ELSE RFloor(m (.) (RInt(Draw(seed, pos)) (/) "3.5"))
                n2 == IF m \preceq "0" THEN 0 ELSE RFloor(m (.) (RInt(Draw(seed, twin[1])) (/) "3.5"))
            IN /\ pop' = pop + n /\ pos' = pos + 1 /\ twin' = <<twin[1] + 1, twin[2] + n2>>
               /\ hist' = Append(hist, [op |-> "birth", i |-> i]) /\ UNCHANGED <<gen, seed, omega, target, last>>
\* mature spots are added one by one until the target is reached
Aim(i) == /\ target = "0" /\ target' = ("4" (.) Pi) (.) Cat.births.covs[i] /\ target' # "0"
          /\ hist' = Append(hist, [op |-> "mature", i |-> i]) /\ UNCHANGED <<gen, seed, pos, pop, omega, last, twin>>
Mature == /\ omega \prec target /\ pos < 400
          /\ last' = Solid(Size(G, Draw(seed, pos))) /\ omega' = omega (+) last'
          /\ pos' = pos + 1 /\ pop' = pop + 1 /\ twin' = <<twin[1] + 1, twin[2] + 1>> /\ UNCHANGED <<gen, seed, target, hist>>
Next == \/ Mature
        \/ ~(omega \prec target) /\ Len(hist) <= Depth /\ ((\E i \in Ix(Cat.births.dts) : Birth(i)) \/ (\E i \in Ix(Cat.births.covs) : Aim(i)))
Spec == Init /\ [][Next]_vars
Emitted == hist' = hist \/ Emit(ToJson(hist'))
\* more time, more births; none without time or coverage; births replace what decays
Inv_C12 == /\ pop >= 0
           /\ \A i \in Ix(Cat.births.dts) :
                LET m == SpotsExpected(G, Rad, Cat.births.dts[i])
                IN /\ m \succeq "0" /\ (G.cov = "0" \/ Static(G) \/ Cat.births.dts[i] = "0") => m \preceq "0"
                   /\ RClose(SpotsExpected(G, Rad, "2" (.) Cat.births.dts[i]), "2" (.) m, "1e-9", "1e-12")
           \* in balance, the spots alive cover the fraction asked for
           /\ ~Static(G) =>
                RClose((SpotsExpected(G, Rad, SpotLife(G)) (.) SpotMeanArea(G)) (/) Sphere(Rad), G.cov, "1e-9", "1e-12")
           /\ \A i \in Ix(Cat.facgens) : LET g == Cat.facgens[i] IN
                RClose((FacsExpected(g, Rad, "2" (.) g.life) (.) FacMeanArea(g)) (/) Sphere(Rad), g.cov, "1e-9", "1e-12")
\* the target is reached by the last spot and not before
Inv_C13 == (omega \succ "0") => (omega (-) last) \prec target
Inv_C14 == twin = <<pos, pop>>
=============================================================================
