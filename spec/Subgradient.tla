----------------------------- MODULE Subgradient -----------------------------
(***************************************************************************)
(* The bounding phase, iteration by iteration, and the heuristic phase,    *)
(* attempt by attempt.  `job` is the call, bd the progress of the phase.   *)
(***************************************************************************)
EXTENDS SetCover, StepCtl
CONSTANT Check
\* an equality, so that TLC evaluates the guard as one value
G(p, c) == TRUE = (p \notin Check \/ c)

VARIABLES pc, job, bd, core
svars == <<ctl, pc, job, bd, core>>
DInst == [nr |-> job.nr, cols |-> job.cols, costs |-> job.costs]
IsCore(map, c) == ValidSel(DInst, map) /\ CoveredBy(DInst, Range0(map)) = Rows(DInst)
                  /\ c.cols = [i \in DOMAIN map |-> DInst.cols[map[i] + 1]] /\ c.costs = [i \in DOMAIN map |-> DInst.costs[map[i] + 1]]
                  /\ IsTranspose([nr |-> job.nr, cols |-> c.cols, costs |-> c.costs], c.rows)
GoodMult(u) == Len(u) = job.nr /\ \A i \in DOMAIN u : u[i] >= 0

Call(jb) == /\ pc \in {"idle", "done"} /\ job' = jb /\ pc' = "called" /\ bd' = <<>> /\ core' = <<>> /\ UNCHANGED ctl
BeginBound(cut, map) ==
    /\ pc = "called" /\ pc' = "iter"
    /\ bd' = [cut |-> cut, it |-> -1, real |-> -INF, corelb |-> -INF, n |-> 0, over |-> FALSE, x |-> FALSE, fresh |-> FALSE]
    /\ core' = map
    /\ st' = <<>> /\ xt' = <<>> /\ pt' = <<>>
    /\ UNCHANGED job
MaxIters == 10 * job.nr
\* the whole instance was priced during the iteration in progress
Price(lb, u, map, c, x) ==
    /\ pc = "iter"
    /\ G("C25", ~bd.over /\ ~bd.fresh)
    /\ G("C25", GoodMult(u) /\ IsCore(map, c))
    /\ core' = map
    /\ bd' = [bd EXCEPT !.real = Max2(@, lb), !.fresh = TRUE, !.n = lb, !.x = x]
    /\ UNCHANGED <<ctl, pc, job>>
ReachedCut == bd.real >= bd.cut - job.eps + Tol(3, bd.cut)
MayReachCut == bd.real >= bd.cut - job.eps - Tol(3, bd.cut)
\* one iteration e: what the managers were told and answered
Iter(e) ==
    /\ pc = "iter"
    /\ G("C25", ~bd.over)                                    \* no reason to stop so far
    /\ G("C24", e.it = bd.it + 1 /\ e.it < MaxIters)
    /\ G("C24", e.pstep = 20 /\ e.pexit = 300 /\ e.pprice = 10 /\ NearStep(e.init, job.istep))
    /\ LET s0 == IF st = <<>> THEN NewStep(20, e.init) ELSE st
           x0 == IF xt = <<>> THEN NewExit(300) ELSE xt
           p0 == IF pt = <<>> THEN NewPrice(10, e.maxinc) ELSE pt
           best == IF e.hasstep THEN Max2(bd.corelb, e.steplb) ELSE bd.corelb
           priced == bd.fresh
       IN /\ G("C24", e.hasstep => StepAfter(s0, e.it, e.steplb, e.step, 2))
          /\ st' = IF e.hasstep THEN StepState(s0, e.it, e.steplb, e.step) ELSE s0
          \* the exit condition looks at the best bound of the core instance
          /\ G("C24", e.hasexit => IF e.hasstep THEN e.exitlb = best ELSE e.exitlb >= best)
          /\ G("C24", e.exit => e.hasexit /\ e.it = x0.next /\ x0.prev # -NoLb /\ e.exitlb - x0.prev < job.absx + 2)
          /\ G("C24", (e.hasexit /\ ~e.exit /\ e.it = x0.next /\ x0.prev # -NoLb /\ e.exitlb > 0) =>
                    \/ e.exitlb - x0.prev >= job.absx - 2
                    \/ e.exitlb - x0.prev > ((e.exitlb \div 1000) * job.relx) \div 1000 - 2)
          /\ xt' = IF e.hasexit THEN ExitState(x0, e.it, e.exitlb) ELSE x0
          /\ G("C24", e.asked => e.price = (e.it = p0.next))
          /\ G("C24", priced <=> (e.asked /\ e.price /\ e.it < MaxIters - 1))
          /\ G("C24", (e.hasstep /\ e.it = p0.next /\ e.it < MaxIters - 1) => priced)
          /\ G("C24", priced => e.upd /\ e.ur = bd.n /\ e.uu = bd.cut /\ e.uc = best)
          /\ IF e.upd THEN pt' \in PriceStates(p0, e.uc, e.ur, e.uu, 2) ELSE pt' = p0
          /\ bd' = [bd EXCEPT !.it = e.it, !.fresh = FALSE, !.corelb = IF priced THEN -INF ELSE best,
                              !.over = e.exit \/ ~e.hasstep \/ e.it = MaxIters - 1 \/ (priced /\ bd.x) \/ ReachedCut]
    /\ UNCHANGED <<pc, job, core>>
EndBound(lb, u) ==
    /\ pc = "iter" /\ pc' = "bounded"
    /\ G("C25", lb = bd.real)
    \* (the phase may also end by itself when the subgradient vanishes, which is not observed)
    /\ G("C25", GoodMult(u))
    /\ G("C25", lb = -INF \/ job.nr > 9 \/ Leq(lb, OptOf(DInst, Rows(DInst)), job.nr + 2))
    /\ UNCHANGED <<ctl, job, bd, core>>
BeginHeur(cut) == /\ pc = "bounded" /\ pc' = "heur" /\ bd' = [sel |-> <<>>, cost |-> cut, cut |-> cut, n |-> 0] /\ UNCHANGED <<ctl, job, core>>
CoreI == [nr |-> job.nr, cols |-> [i \in DOMAIN core |-> DInst.cols[core[i] + 1]], costs |-> [i \in DOMAIN core |-> DInst.costs[core[i] + 1]]]
Attempt(sel, cost, below) ==
    /\ pc = "heur"
    /\ G("C25", bd.n < job.heur)
    /\ G("C25", below => IsCover(CoreI, sel) /\ Near(cost, CostOf(CoreI, sel), Len(sel)))
    /\ \/ /\ below /\ cost <= bd.cost - job.eps + Tol(2, bd.cost)
          /\ bd' = [bd EXCEPT !.sel = sel, !.cost = cost, !.n = @ + 1]
       \/ /\ ~below \/ cost > bd.cost - job.eps - Tol(2, bd.cost)
          /\ bd' = [bd EXCEPT !.n = @ + 1]
    /\ UNCHANGED <<ctl, pc, job, core>>
EndHeur(sel, cost, u) ==
    /\ pc = "heur" /\ pc' = "done"
    /\ G("C25", (bd.sel # <<>> => sel = bd.sel) /\ cost = bd.cost)
    /\ G("C25", GoodMult(u))
    /\ UNCHANGED <<ctl, job, bd, core>>
=============================================================================
