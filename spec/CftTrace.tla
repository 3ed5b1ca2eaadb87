------------------------------ MODULE CftTrace ------------------------------
(***************************************************************************)
(* Accepts a recorded execution of the real code iff it is a behaviour of  *)
(* Cft.  Trace number t is the record Traces[t] = [ev |-> events]; l is    *)
(* the next event.  TakeOver and a refinement fixing without columns are   *)
(* not logged: they are taken as silent steps.                             *)
(***************************************************************************)
EXTENDS Cft, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<vars, t, l>>
Ev == Traces[t].ev
E == Ev[l]
More == l <= Len(Ev)
Is(name) == More /\ E.e = name /\ l' = l + 1 /\ t' = t
Quiet == l' = l /\ t' = t

InstOf(e) == [nr |-> e.nr, cols |-> e.cols, costs |-> e.costs]
FixOf(e) == [inst |-> InstOf(e), fixed |-> e.fixed, fcost |-> e.fcost, cmap |-> e.cmap, rmap |-> e.rmap]

TraceInit ==
    /\ t \in 1 .. Len(Traces) /\ l = 1
    /\ pc = "start" /\ orig = <<>> /\ par = <<>> /\ best = NoSol /\ dual = NoDual /\ frac = <<>> /\ rf = <<>>
    /\ tin = <<>> /\ tf = <<>> /\ tbest = NoSol /\ tdual = NoDual /\ core = <<>> /\ mult = <<>> /\ ph = <<>> /\ late = 0

\* the core instance logged with a pricing: columns of the instance, in the order of the map
CoreOk(fr, e) ==
    /\ ValidSel(fr.inst, e.map)
    /\ [nr |-> e.nr, cols |-> e.cols, costs |-> e.costs] = CoreInst(fr, e.map)
    /\ IsTranspose(InstOf(e), e.rows)

tRun == Is("run") /\ Start(InstOf(E), E.par, E.ws, E.wcost)
tTp0 == Is("tp0") /\ Enter3P(InstOf(E), E.x) /\ G("C09", IsTranspose(InstOf(E), E.rows))
tGr0 == Is("gr") /\ InitGreedy(E.sol, E.cost, E.x)
tSub0 == Is("sub0") /\ BeginBound(E.cut, E.map, E.mult, E.x)
            /\ G("C10", pc = "priced" => CoreOk(tf, E))
            /\ G("C25", CoreOk(tf, E))
\* the bound of a pricing, when the numbers fit
LagOk(e) == e.nok => Near(e.lb, LagBound(tf.inst, e.mult), NC(tf.inst) * tf.inst.nr + NC(tf.inst))
tPr == Is("pr") /\ BoundPrice(E.lb, E.map, E.x) /\ G("C10", CoreOk(tf, E) /\ LagOk(E))
            /\ G("C25", Len(E.mult) = tf.inst.nr /\ \A i \in DOMAIN E.mult : E.mult[i] >= 0)
tSub1 == Is("sub1") /\ EndBound(E.lb, E.mult, E.x)
tHeu0 == Is("heu0") /\ BeginHeur(E.cut, E.x)
tGr == Is("gr") /\ HeurTry(E.sol, E.cost, E.below, E.x) /\ G("C25", E.inp = <<>>)
tHeu1 == Is("heu1") /\ EndHeur(E.sol, E.cost, E.mult, E.x)
\* the column fixing: greedy completion of a choice, the fixing itself, the remaining multipliers
tCf0 == Is("cf0") /\ pc = "fix" /\ G("C08", E.nr = tf.inst.nr /\ E.nc = NC(tf.inst)) /\ UNCHANGED vars
tGrC == Is("gr") /\ pc = "fix" /\ UNCHANGED vars
tFx == Is("fx") /\ Fix3P(E.sel, FixOf(E), E.x) /\ G("C09", IsTranspose(InstOf(E), E.rows))
tCf1 == Is("cf1") /\ KeepMults(E.mult, <<>>)
            /\ G("C09", LET keep == tf.rmap IN Len(E.mult) = Len(keep))
tPrL == Is("pr") /\ Price3P(E.lb, E.map, E.x)
            /\ G("C10", tf.inst.nr > 0 => CoreOk(tf, E) /\ LagOk(E))
tTp1 == Is("tp1") /\ Exit3P(E.sol, E.cost, E.lb, E.mult, E.x)
\* a stand-in of the whole 3-phase returned (Refinement is then checked on its own)
tStub == Is("tp1") /\ Traces[t].stub /\ pc = "greedy0"
            /\ tbest' = [sel |-> E.sol, cost |-> E.cost] /\ tdual' = [set |-> TRUE, lb |-> E.lb, u |-> E.mult]
            /\ pc' = "returned" /\ ph' = [x |-> E.x]
            /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, core, mult, late>>
\* a stand-in of the bounding phase changed the core instance
tCore == Is("core") /\ pc = "bound" /\ core' = E.map
            /\ UNCHANGED <<pc, orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, mult, ph, late>>
tTake == More /\ Quiet /\ TakeOver
tRefFx == Is("fx") /\ RefFix(E.sel, FixOf(E), Traces[t].nok, E.x)
tRefNo == More /\ E.e = "tp0" /\ Quiet /\ RefFix(<<>>, IdFix(orig), Traces[t].nok, ph.x)
tRes == Is("res") /\ Finish(E.sol, E.cost, E.lb, E.x)

TraceNext == tRun \/ tTp0 \/ tGr0 \/ tSub0 \/ tPr \/ tSub1 \/ tHeu0 \/ tGr \/ tHeu1 \/ tCf0 \/ tGrC \/ tFx
             \/ tCf1 \/ tPrL \/ tTp1 \/ tStub \/ tCore \/ tTake \/ tRefFx \/ tRefNo \/ tRes
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* printed once a trace has been consumed completely
Accepted == l = Len(Ev) + 1 => PrintT("@@" \o ToString(t))
\* used to locate the first event of a rejected trace that has no explanation
Progress == PrintT("@@" \o ToString(l))
=============================================================================
