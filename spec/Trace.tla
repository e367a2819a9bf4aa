------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation (file TRACES) against  *)
(* the clauses of property PROP.  The state is the star's state as         *)
(* observed; each step consumes one event.                                 *)
(***************************************************************************)
EXTENDS Clauses, TLCExt, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
TraceGrids == File.grids

VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>

None == [g |-> "none"]
Init == tr \in 1..Len(File.traces) /\ l = 0 /\ st = None /\ bad = {}

Judge(pre, e) ==
  Answers(e) \cup
  CASE Prop = "C01" -> C01(pre, e) [] Prop = "C02" -> C02(pre, e) [] Prop = "C03" -> C03(pre, e)
    [] Prop = "C04" -> C04(pre, e) [] Prop = "C05" -> C05(pre, e) [] Prop = "C06" -> C06(pre, e)
    [] Prop = "C07" -> C07(pre, e) [] Prop = "C08" -> C08(pre, e) [] Prop = "C09" -> C09(pre, e)
    [] Prop = "C10" -> C10(pre, e) [] Prop = "C11" -> C11(pre, e) [] Prop = "C12" -> C12(pre, e)
    [] Prop = "C13" -> C13(pre, e) [] Prop = "C14" -> C14(pre, e) [] Prop = "C15" -> C15(pre, e)
    [] Prop = "C16" -> C16(pre, e) [] Prop = "C17" -> C17(pre, e) [] Prop = "C18" -> C18(pre, e)
    [] Prop = "C19" -> C19(pre, e) [] Prop = "C20" -> C20(pre, e) [] Prop = "C21" -> C21(pre, e)
    [] Prop = "C22" -> C22(pre, e) [] Prop = "C23" -> C23(pre, e) [] Prop = "C24" -> C24(pre, e)
    [] Prop = "C25" -> C25(pre, e) [] Prop = "C26" -> C26(pre, e) [] Prop = "C27" -> C27(pre, e)
    [] Prop = "C28" -> C28(pre, e) [] Prop = "C29" -> C29(pre, e) [] Prop = "C30" -> C30(pre, e)
    [] Prop = "C31" -> C31(pre, e) [] Prop = "C32" -> C32(pre, e) [] Prop = "C33" -> C33(pre, e)

Step ==
  /\ l < Len(File.traces[tr])
  /\ l' = l + 1
  /\ LET e == File.traces[tr][l + 1]
     IN st' = e.post /\ bad' = Judge(st, e)
  /\ tr' = tr
Spec == Init /\ [][Step]_vars

\* never false: reports every violating step (the harness reads these lines)
Report == bad = {} \/ PrintT(<<"BAD", tr, l, bad>>)
=============================================================================
