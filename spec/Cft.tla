-------------------------------- MODULE Cft --------------------------------
(***************************************************************************)
(* The CFT algorithm of c4v4/cft as a state machine: Refinement (run) on   *)
(* top of the 3-phase procedure (bounding, heuristic, column fixing).      *)
(*                                                                         *)
(* One action per phase boundary of the code.  Every action takes what the *)
(* phase produced as parameters: the design is model checked with these    *)
(* chosen nondeterministically within the contract of the phase (CftMC),   *)
(* and recorded executions of the real code are checked with the recorded  *)
(* values (CftTrace), by the very same actions.                            *)
(*                                                                         *)
(* The conditions a listed property puts on a step are labelled with its   *)
(* identifier: G("C08", cond) must hold when C08 is among the properties   *)
(* Check being decided.  Unlabelled conditions only order the phases.      *)
(***************************************************************************)
EXTENDS SetCover

CONSTANT Check
G(p, cond) == TRUE = (p \notin Check \/ cond)  \* an equality, so that TLC evaluates it as one value

VARIABLES
    pc,      \* where the algorithm is
    orig,    \* the instance being solved
    par,     \* parameters: eps, alpha (x1000), beta (x1000), minfix (x100000), heur
    best,    \* incumbent of the refinement, in original columns
    dual,    \* multipliers and bound of the unfixed instance
    frac,    \* share of rows to fix (x100000), and whether the incumbent improved since the last fixing
    rf,      \* what the refinement fixed for the current round
    tin,     \* instance given to the 3-phase
    tf,      \* what the 3-phase fixed of it
    tbest,   \* best solution of this 3-phase call, in the columns of tin
    tdual,   \* multipliers and bound before its first fixing
    core,    \* columns of the core instance (as columns of tf.inst)
    mult,    \* current multipliers
    ph,      \* bookkeeping of the phase in progress
    late     \* number of bounding phases started after the time limit
vars == <<pc, orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, core, mult, ph, late>>

NoSol == [sel |-> <<>>, cost |-> INF]
NoDual == [set |-> FALSE, lb |-> -INF, u |-> <<>>]
IdFix(inst) == [inst |-> inst, fixed |-> <<>>, fcost |-> 0, cmap |-> Identity(NC(inst)), rmap |-> Identity(inst.nr)]
FixOp(fr, sel) ==
    LET F == Range0(sel)
    IN IF sel = <<>> THEN fr ELSE
       [inst |-> Residual(fr.inst, F), fixed |-> fr.fixed \o Compose(fr.cmap, sel),
        fcost |-> fr.fcost + CostOf(fr.inst, sel),
        cmap |-> Compose(fr.cmap, ColMap(fr.inst, F)), rmap |-> Compose(fr.rmap, RowMap(fr.inst, F))]
SameFix(a, b) ==
    /\ a.inst.nr = b.inst.nr /\ a.inst.cols = b.inst.cols
    /\ Len(a.inst.costs) = Len(b.inst.costs)
    /\ \A j \in DOMAIN a.inst.costs : a.inst.costs[j] = b.inst.costs[j]
    /\ a.fixed = b.fixed /\ a.cmap = b.cmap /\ a.rmap = b.rmap
    /\ Near(a.fcost, b.fcost, Len(b.fixed))
CoreInst(fr, map) == [nr |-> fr.inst.nr, cols |-> [i \in DOMAIN map |-> fr.inst.cols[map[i] + 1]],
                      costs |-> [i \in DOMAIN map |-> fr.inst.costs[map[i] + 1]]]
SoundCore(fr, map) == ValidSel(fr.inst, map) /\ CoveredBy(fr.inst, Range0(map)) = Rows(fr.inst)

\* clear comparisons of scaled reals; ties within the tolerance allow both outcomes
ClearlyLess(a, b, n) == a < b - Tol(n, b)
MaybeLess(a, b, n) == a < b + Tol(n, b)

Start(inst, p, ws, wcost) ==
    /\ pc = "start"
    /\ orig' = inst /\ par' = p
    /\ best' = IF ws = <<>> THEN NoSol ELSE [sel |-> ws, cost |-> wcost]
    /\ dual' = NoDual /\ frac' = [f |-> 0, imp |-> TRUE]
    /\ rf' = IdFix(inst) /\ pc' = "round"
    /\ tin' = inst /\ tf' = IdFix(inst) /\ tbest' = NoSol /\ tdual' = NoDual
    /\ core' = <<>> /\ mult' = <<>> /\ ph' = [lb |-> -INF, x |-> FALSE] /\ late' = 0

------------------------------------------------------------------------------
\* the 3-phase procedure
Enter3P(inst, x) ==
    /\ pc = "round"
    /\ G("C07", rf.inst.nr > 0)                       \* otherwise everything is decided
    /\ G("C07", inst = rf.inst)                       \* the round works on what the fixing left
    /\ G("C05", rf.fixed # <<>> => ~ph.x)             \* no new round after the time limit
    /\ tin' = inst /\ tf' = IdFix(inst) /\ tdual' = NoDual /\ tbest' = NoSol
    /\ core' = <<>> /\ mult' = <<>> /\ ph' = [lb |-> -INF, x |-> x, it |-> 0]
    /\ pc' = "greedy0"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, late>>

\* the initial greedy solution, in columns of the tentative core (known only with the next step)
InitGreedy(sel, cost, x) ==
    /\ pc = "greedy0"
    /\ tbest' = [sel |-> sel, cost |-> cost] /\ pc' = "bound0" /\ ph' = [ph EXCEPT !.x = x]
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tdual, core, mult, late>>

\* conditions under which the 3-phase may, or must, stop
Closed(lb) == lb + tf.fcost >= tbest.cost - par.eps - Tol(Len(tbest.sel) + 2, tbest.cost)
ClearlyClosed(lb) == lb + tf.fcost >= tbest.cost - par.eps + Tol(Len(tbest.sel) + 2, tbest.cost)

BeginBound(cut, map, u, x) ==
    /\ pc \in {"bound0", "priced"}
    /\ LET tb == IF pc = "bound0" THEN [sel |-> Compose(map, tbest.sel), cost |-> tbest.cost] ELSE tbest
       IN /\ G("C08", pc = "bound0" => IsCover(tin, tb.sel) /\ Near(tb.cost, CostOf(tin, tb.sel), Len(tb.sel)))
          /\ G("C08", Near(cut, tb.cost - tf.fcost, Len(tb.sel) + 2))
          /\ tbest' = tb
    /\ G("C08", tf.inst.nr > 0)
    /\ G("C08", pc = "priced" => ~ClearlyClosed(ph.lb))
    /\ G("C25", SoundCore(tf, map) /\ Len(u) = tf.inst.nr)
    /\ G("C08", pc = "priced" => map = core)
    /\ core' = map /\ mult' = u
    /\ late' = IF x THEN late + 1 ELSE late
    /\ G("C05", late' <= 1)
    /\ ph' = [lb |-> -INF, it |-> ph.it, cut |-> cut, np |-> 0, x |-> x]
    /\ pc' = "bound"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tdual>>

\* one pricing of the whole (residual) instance within the bounding phase
BoundPrice(lb, map, x) ==
    /\ pc = "bound"
    /\ G("C25", SoundCore(tf, map))
    /\ G("C25", ph.lb < ph.cut - par.eps + Tol(4, ph.cut))     \* it had no reason to stop before
    /\ ph' = [ph EXCEPT !.lb = Max2(@, lb), !.np = @ + 1, !.x = x]
    /\ core' = map
    /\ UNCHANGED <<pc, orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, mult, late>>

EndBound(lb, u, x) ==
    /\ pc = "bound"
    /\ G("C25", lb = ph.lb)
    /\ G("C25", Len(u) = tf.inst.nr /\ \A i \in DOMAIN u : u[i] >= 0)
    /\ G("C25", lb # INF => Leq(lb, OptOf(tf.inst, Rows(tf.inst)), tf.inst.nr + 2))
    /\ tdual' = IF ph.it = 0 THEN [set |-> TRUE, lb |-> lb, u |-> u] ELSE tdual
    /\ mult' = u
    /\ ph' = [ph EXCEPT !.lb = lb, !.x = x] /\ pc' = "bounded"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tbest, core, late>>

BeginHeur(cut, x) ==
    /\ pc = "bounded"
    /\ G("C08", ~ClearlyClosed(ph.lb))
    /\ G("C05", ~ph.x)                                \* time was over: no heuristic is started
    /\ G("C08", Near(cut, ph.cut, 1))
    /\ ph' = [cut |-> cut, sel |-> <<>>, cost |-> cut, n |-> 0, it |-> ph.it, x |-> x]
    /\ pc' = "heur"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, core, mult, late>>

\* one greedy attempt of the heuristic phase, in columns of the core
HeurTry(sel, cost, below, x) ==
    LET c == CoreInst(tf, core) IN
    /\ pc = "heur"
    /\ G("C25", ph.n + 1 <= par.heur)
    /\ G("C25", below => IsCover(c, sel) /\ Near(cost, CostOf(c, sel), Len(sel)))
    /\ \/ /\ below /\ cost <= ph.cost - par.eps + Tol(2, ph.cost)
          /\ ph' = [ph EXCEPT !.sel = sel, !.cost = cost, !.n = @ + 1, !.x = x]
       \/ /\ ~below \/ cost > ph.cost - par.eps - Tol(2, ph.cost)
          /\ ph' = [ph EXCEPT !.n = @ + 1, !.x = x]
    /\ UNCHANGED <<pc, orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, core, mult, late>>

EndHeur(sel, cost, u, x) ==
    /\ pc = "heur"
    /\ G("C25", cost = ph.cost /\ sel = ph.sel)
    /\ G("C25", Len(u) = tf.inst.nr /\ \A i \in DOMAIN u : u[i] >= 0)
    /\ LET full == tf.fixed \o Compose(tf.cmap, Compose(core, sel))
           fc == cost + tf.fcost
           n == Len(full) + 2
       IN \/ /\ sel # <<>> /\ MaybeLess(fc, tbest.cost, n)
             /\ tbest' = [sel |-> full, cost |-> fc]
             /\ G("C08", IsCover(tin, full) /\ Near(fc, CostOf(tin, full), Len(full)))
          \/ /\ sel = <<>> \/ ~ClearlyLess(fc, tbest.cost, n)
             /\ tbest' = tbest
    /\ mult' = u
    /\ pc' = "fix" /\ ph' = [it |-> ph.it, x |-> x, lb |-> -INF]
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tdual, core, late>>

\* column fixing; `new` is the fixing data (and residual instance) the code computed
Fix3P(sel, new, x) ==
    /\ pc = "fix"
    /\ G("C09", ValidSel(tf.inst, sel) /\ SameFix(new, FixOp(tf, sel)))
    /\ G("C05", sel # <<>>)                            \* progress: something is fixed
    /\ tf' = new /\ pc' = "fixed" /\ ph' = [ph EXCEPT !.x = x]
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tbest, tdual, core, mult, late>>

\* the multipliers of the remaining rows are kept
KeepMults(u, rmapOld) ==
    /\ pc = "fixed"
    /\ G("C09", Len(u) = tf.inst.nr)
    /\ mult' = u /\ pc' = "price"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, core, ph, late>>

Price3P(lb, map, x) ==
    /\ pc = "price"
    /\ tf.inst.nr > 0 => G("C10", SoundCore(tf, map))
    /\ core' = map
    /\ ph' = [ph EXCEPT !.lb = lb, !.x = x, !.it = @ + 1] /\ pc' = "priced"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, mult, late>>

Exit3P(sel, cost, lb, u, x) ==
    /\ pc \in {"bounded", "priced"}
    /\ G("C08", tf.inst.nr = 0 \/ Closed(ph.lb) \/ x)    \* x: time is over
    /\ G("C08", Range0(sel) = Range0(tbest.sel) /\ IsCover(tin, sel) /\ Near(cost, tbest.cost, Len(sel) + 2))
    /\ G("C08", tdual.set /\ lb = tdual.lb /\ u = tdual.u)
    /\ pc' = "returned"
    /\ tbest' = [sel |-> sel, cost |-> cost]
    /\ tdual' = [set |-> TRUE, lb |-> lb, u |-> u]
    /\ ph' = [x |-> x]
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, core, mult, late>>

------------------------------------------------------------------------------
\* the refinement: takes over the result of the round
Lifted == [sel |-> rf.fixed \o Compose(rf.cmap, tbest.sel), cost |-> tbest.cost + rf.fcost]
TakeOver ==
    /\ pc = "returned"
    /\ \/ /\ MaybeLess(Lifted.cost, best.cost, Len(Lifted.sel) + 2)
          /\ best' = Lifted /\ frac' = [frac EXCEPT !.imp = TRUE]
          /\ G("C07", IsCover(orig, Lifted.sel) /\ Near(Lifted.cost, CostOf(orig, Lifted.sel), Len(Lifted.sel)))
       \/ /\ ~ClearlyLess(Lifted.cost, best.cost, Len(Lifted.sel) + 2)
          /\ best' = best /\ frac' = frac
    /\ dual' = IF dual.set THEN dual ELSE tdual
    /\ pc' = "decide"
    /\ tin' = orig /\ tf' = IdFix(orig) /\ tbest' = NoSol /\ tdual' = NoDual /\ core' = <<>> /\ mult' = <<>>   \* over
    /\ UNCHANGED <<orig, par, rf, ph, late>>

\* the incumbent costs at most beta times the bound plus epsilon
BetaLb == IF dual.lb <= -INF THEN -INF ELSE (dual.lb \div 1000) * par.beta + ((dual.lb % 1000) * par.beta) \div 1000
GoodEnough == best.cost <= BetaLb + par.eps + Tol(4, best.cost)
ClearlyGoodEnough == best.cost <= BetaLb + par.eps - Tol(4, best.cost)

\* share of rows to fix
NextFrac == IF frac.imp THEN par.minfix
            ELSE Min2(100000, (frac.f * par.alpha) \div 1000)
\* contributions of the selected columns to the gap
Cover(i) == Cardinality({j \in DOMAIN best.sel : i \in ColSet(orig, best.sel[j])})
Delta(j) == LET c == orig.cols[j + 1]
                part == FoldLeft(LAMBDA a, i : a + (dual.u[i + 1] - dual.u[i + 1] \div Cover(i)), 0, c)
                rc == RedCost(orig, dual.u, j)
            IN part + Max2(rc, 0)
NFix(f) == {n \in 0 .. orig.nr : /\ n * 100000 <= orig.nr * f + 200 * orig.nr
                                 /\ (n + 1) * 100000 > orig.nr * f - 200 * orig.nr}
\* F: columns of the incumbent of smallest contribution, as many as fit
GoodPrefix(F, nfix) ==
    LET tol == 2 * orig.nr + 2 + (MaxOf({0} \cup {Abs(Delta(j)) : j \in Range0(best.sel)}) \div 65536)
        d == [j \in Range0(best.sel) |-> Delta(j)]
        rest == Range0(best.sel) \ F
    IN /\ F \subseteq Range0(best.sel)
       /\ \A a \in F, b \in rest : d[a] <= d[b] + tol
       /\ Cardinality(CoveredBy(orig, F)) <= nfix
       /\ rest # {} => \E b \in rest : /\ \A c \in rest : d[b] <= d[c] + tol
                                       /\ Cardinality(CoveredBy(orig, F \cup {b})) > nfix

\* nok: the recorded numbers are small enough for exact integer arithmetic
RefFix(sel, new, nok, x) ==
    /\ pc = "decide"
    /\ G("C07", ~ClearlyGoodEnough)
    /\ G("C05", ~ph.x)
    /\ G("C07", (sel # <<>> /\ nok) => \E n \in NFix(NextFrac) : GoodPrefix(Range0(sel), n))
    /\ G("C07", (sel = <<>> /\ nok) => \E n \in NFix(NextFrac) : GoodPrefix({}, n))
    /\ G("C07", SameFix(new, FixOp(IdFix(orig), sel)))   \* from the whole instance, not from the last round
    /\ rf' = new
    /\ frac' = [f |-> NextFrac, imp |-> FALSE]
    /\ pc' = "round" /\ ph' = [x |-> x /\ sel # <<>>]
    /\ UNCHANGED <<orig, par, best, dual, tin, tf, tbest, tdual, core, mult, late>>

\* end of the run: after the decision, or after a fixing that left no rows / used up the time
Finish(sel, cost, lb, x) ==
    /\ pc \in {"decide", "round"}
    /\ G("C07", \/ pc = "decide" /\ (GoodEnough \/ x)
                \/ pc = "round" /\ dual.set /\ (rf.inst.nr = 0 \/ x))
    /\ G("C07", Range0(sel) = Range0(best.sel) /\ NoDup(sel) /\ Near(cost, best.cost, Len(sel)) /\ lb = dual.lb)
    /\ G("C05", IsCover(orig, sel))
    /\ pc' = "done"
    /\ UNCHANGED <<orig, par, best, dual, frac, rf, tin, tf, tbest, tdual, core, mult, ph, late>>
=============================================================================
