------------------------------ MODULE MC_Gran ------------------------------
(* Granulation (C18) for all combinations of parameters of the catalog.     *)
EXTENDS Granules, Json, IOUtils
Cat == JsonDeserialize("catalog.json").granulations
Depth == CHOOSE n \in 0..9 : ToString(n) = IOEnv.DEPTH
Ix(s) == 1..Len(s)
VARIABLES par, x, hist
vars == <<par, x, hist>>
\* x: deviation of the process, in standard deviations
Init == /\ \E m \in Ix(Cat.mean), a \in Ix(Cat.amp), p \in Ix(Cat.per), d \in Ix(Cat.dt) :
             par = [mean |-> Cat.mean[m], amp |-> Cat.amp[a], per |-> Cat.per[p], dt |-> Cat.dt[d]]
        /\ x = "0" /\ hist = <<par>>
Next == \E y \in {"-4", "-1", "0", "2", "4"} : x' = y /\ UNCHANGED par /\ hist' = <<par>>
Spec == Init /\ [][Next]_vars
Emitted == Emit(ToJson(hist'))
Cover == Clamp(par.mean (+) (x (.) GStd(par.amp, par.per)), "0", "1")
Inv_C18 == /\ Within(Cover, "0", "1")
           \* no two times vary together more than one time with itself
           /\ \A tau \in {"0", "0.3", "1", "4", "20", "300"} : RAbs(GCov(par.amp, par.per, tau)) \preceq (GCov(par.amp, par.per, "0") (.) "1.000000001")
           /\ GStd(par.amp, par.per) \succeq "0"
           /\ par.amp \succ "0" => GStd(par.amp, par.per) \succ "0"
           \* without variation: the mean
           /\ RLe(par.amp, "0") => Near(Cover, par.mean)
=============================================================================
