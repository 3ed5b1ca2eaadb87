----------------------------- MODULE GreedyTrace -----------------------------
(***************************************************************************)
(* A recorded call is accepted when some run of the procedure returns what *)
(* it returned.  Check = "C11": the whole; "C12": only calls in which the  *)
(* selection is forced, judged on what redundancy removal left.            *)
(***************************************************************************)
EXTENDS Greedy, TraceLoop
JobOf(e) == [inst |-> [nr |-> e.nr, cols |-> e.cols, costs |-> e.costs], u |-> e.u, w |-> e.w, inp |-> e.inp, cut |-> e.cut, max |-> e.max]
TInit == LoopInit /\ pc = "idle" /\ job = <<>> /\ sel = {} /\ kept = {} /\ red = {}
Stay == t' = t /\ l' = l
tCall == More /\ pc = "idle" /\ Stay /\ Call(JobOf(E))
tStep == More /\ Stay /\ (Add \/ Split \/ Drop)
tRet == /\ Is("gr") /\ E.same
        /\ Returns(E.sol, E.ret) \/ GivesUp(E.ret) \/ Nothing(E.sol, E.ret)
        /\ pc' = "idle" /\ job' = <<>> /\ sel' = {} /\ kept' = {} /\ red' = {}
TraceSpec == TInit /\ [][tCall \/ tStep \/ tRet]_<<gvars, t, l>>
=============================================================================
