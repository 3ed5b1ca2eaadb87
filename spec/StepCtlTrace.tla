---------------------------- MODULE StepCtlTrace ----------------------------
EXTENDS StepCtl, TraceLoop
VARIABLE cfg
TInit == LoopInit /\ st = <<>> /\ xt = <<>> /\ pt = <<>> /\ cfg = <<>>
tStep0 == Is("step0") /\ st' = NewStep(E.p, E.s) /\ UNCHANGED <<xt, pt, cfg>>
tStep == Is("step") /\ StepAfter(st, E.it, E.lb, E.s, 0) /\ st' = StepState(st, E.it, E.lb, E.s) /\ UNCHANGED <<xt, pt, cfg>>
tExit0 == Is("exit0") /\ xt' = NewExit(E.p) /\ cfg' = [a |-> E.a, r |-> E.r] /\ UNCHANGED <<st, pt>>
tExit == Is("exit") /\ E.x = Exits(xt, E.it, E.lb, cfg.a, cfg.r) /\ xt' = ExitState(xt, E.it, E.lb) /\ UNCHANGED <<st, pt, cfg>>
tPrice0 == Is("price0") /\ pt' = NewPrice(E.p, E.max) /\ UNCHANGED <<st, xt, cfg>>
tPrice == Is("price") /\ E.it = pt.next /\ pt' \in PriceStates(pt, E.c, E.r, E.u, 0) /\ UNCHANGED <<st, xt, cfg>>
\* afterwards it keeps silent until the announced iteration (or for ever, when that has passed)
tSilent == Is("silent") /\ E.it = (IF pt.next < 5000 /\ pt.next >= Traces[t].last THEN pt.next ELSE 5000) /\ UNCHANGED <<ctl, cfg>>
TraceSpec == TInit /\ [][tStep0 \/ tStep \/ tExit0 \/ tExit \/ tPrice0 \/ tPrice \/ tSilent]_<<ctl, cfg, t, l>>
InRange == (l > 1 /\ st # <<>>) => (st.s >= StepLow - 1 /\ st.s <= StepHigh + 1) \/ st.next = st.p
=============================================================================
