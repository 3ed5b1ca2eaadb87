--------------------------- MODULE SubgradientTrace ---------------------------
EXTENDS Subgradient, TraceLoop
TInit == LoopInit /\ pc = "idle" /\ job = <<>> /\ bd = <<>> /\ core = <<>> /\ st = <<>> /\ xt = <<>> /\ pt = <<>>
Silent == UNCHANGED svars
tCall == Is("call") /\ Call([nr |-> E.nr, cols |-> E.cols, costs |-> E.costs, eps |-> E.eps, absx |-> E.absx, relx |-> E.relx, heur |-> E.heur, istep |-> E.istep])
tSub0 == Is("sub0") /\ BeginBound(E.cut, E.map)
tPr == Is("pr") /\ Price(E.lb, E.mult, E.map, [cols |-> E.cols, costs |-> E.costs, rows |-> E.rows], E.x)
\* nok: the numbers allow exact integer arithmetic
       /\ G("C25", Traces[t].nok => Near(E.lb, LagBound(DInst, E.mult), 2 * job.nr * NC(DInst) + 4))
tIt == Is("it") /\ Iter(E)
tSub1 == Is("sub1") /\ EndBound(E.lb, E.mult)
tAfter == Is("after") /\ pc = "bounded" /\ Silent
          /\ G("C25", E.range /\ E.same /\ E.map = core /\ IsCore(E.map, [cols |-> E.cols, costs |-> E.costs, rows |-> E.rows]))
          /\ G("C24", IF st = <<>> THEN TRUE ELSE NearStep(E.step, st.s))
tHeu0 == Is("heu0") /\ BeginHeur(E.cut)
tGr == Is("gr") /\ Attempt(E.sol, E.cost, E.below)
tHeu1 == Is("heu1") /\ EndHeur(E.sol, E.cost, E.mult)
tHAfter == Is("hafter") /\ pc = "done" /\ Silent
           /\ G("C25", E.range /\ E.same /\ E.nu = job.nr)
           /\ G("C25", E.kept \/ (E.below /\ E.eps)) /\ G("C25", (bd.sel = <<>>) = E.kept)
TraceSpec == TInit /\ [][tCall \/ tSub0 \/ tPr \/ tIt \/ tSub1 \/ tAfter \/ tHeu0 \/ tGr \/ tHeu1 \/ tHAfter]_<<svars, t, l>>
=============================================================================
