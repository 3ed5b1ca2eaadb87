-------------------------------- MODULE CftMC --------------------------------
(***************************************************************************)
(* Model checking of the design Cft on small instances: everything a phase *)
(* may produce within its contract is chosen nondeterministically (any     *)
(* cover, any sound core, any valid bound, any columns to fix, any moment  *)
(* of expiry), and the guarantees of the whole follow.                     *)
(***************************************************************************)
EXTENDS Cft

CONSTANTS InstIds,    \* which of the instances below
          MaxTries,   \* greedy attempts of a heuristic phase
          Expiry      \* may the time limit expire?

MCTol(n, x) == 0   \* replaces Tol: comparisons are exact here
MCNFix(f) == {(orig.nr * f) \div 100000}   \* replaces NFix
M == 1000   \* one unit of cost; large with respect to the tolerances
I(nr, cols, costs) == [nr |-> nr, cols |-> cols, costs |-> [j \in DOMAIN costs |-> costs[j] * M]]
Insts == <<
    I(1, <<<<0>>>>, <<1>>),
    I(1, <<<<0>>, <<0>>>>, <<2, 1>>),
    I(2, <<<<0>>, <<1>>, <<0, 1>>>>, <<1, 1, 3>>),
    I(2, <<<<0, 1>>, <<0>>, <<1>>>>, <<3, 0, 2>>),
    I(3, <<<<0, 1>>, <<1, 2>>, <<0, 2>>>>, <<1, 1, 1>>),
    I(3, <<<<0, 1, 2>>, <<0>>, <<1>>, <<2>>>>, <<5, 1, 2, 1>>),
    I(3, <<<<0, 1>>, <<2>>, <<1, 2>>, <<0>>>>, <<2, 2, 1, 1>>),
    I(4, <<<<0, 1>>, <<2, 3>>, <<1, 2>>, <<0, 3>>>>, <<2, 1, 1, 2>>),
    I(4, <<<<0, 1, 2>>, <<3>>, <<2, 3>>, <<0, 1>>>>, <<4, 1, 2, 2>>) >>
Pars == [eps : {0}, alpha : {2000}, beta : {1000}, minfix : {50000}, heur : {MaxTries}]

VARIABLES now,      \* has the time limit expired?
          wcost     \* cost of the warm start, INF without one
mcvars == <<vars, now, wcost>>

Sub(inst) == {SetToSortSeq(S, <) : S \in SUBSET Cols(inst)}
Covers(inst) == {s \in Sub(inst) : IsCover(inst, s)}
Zero(n) == [i \in 1 .. n |-> 0]
Half(n) == [i \in 1 .. n |-> M \div 2]
Bounds(inst) == {-INF, Opt(inst)}
Sound(fr) == {m \in Sub(fr.inst) : SoundCore(fr, m) /\ Len(m) >= NC(fr.inst) - 1}   \* all, or all but one
Clock == IF Expiry THEN {now, TRUE} ELSE {FALSE}

MCInit ==
    /\ pc = "start" /\ orig = <<>> /\ par = <<>> /\ best = NoSol /\ dual = NoDual /\ frac = <<>> /\ rf = <<>>
    /\ tin = <<>> /\ tf = <<>> /\ tbest = NoSol /\ tdual = NoDual /\ core = <<>> /\ mult = <<>> /\ ph = <<>> /\ late = 0
    /\ now = FALSE /\ wcost = INF

mStart == \E i \in InstIds, p \in Pars : \E ws \in {s \in Covers(Insts[i]) : Len(s) = NC(Insts[i])} \cup {<<>>} :
    /\ Start(Insts[i], p, ws, CostOf(Insts[i], ws))
    /\ wcost' = (IF ws = <<>> THEN INF ELSE CostOf(Insts[i], ws)) /\ now' = now
T == wcost' = wcost
mEnter == pc = "round" /\ Enter3P(rf.inst, now) /\ now' = now /\ T
mGreedy == pc = "greedy0" /\ \E s \in Covers(tin) : InitGreedy(s, CostOf(tin, s), now) /\ now' = now /\ T
mBegin == /\ pc \in {"bound0", "priced"}
          /\ BeginBound(tbest.cost - tf.fcost, IF pc = "bound0" THEN Identity(NC(tin)) ELSE core, Zero(tf.inst.nr), now)
          /\ now' = now /\ T
mPrice == /\ pc = "bound" /\ ph.np < 1 /\ now' = now /\ T
          /\ \E lb \in Bounds(tf.inst), m \in Sound(tf) : BoundPrice(lb, m, now)
mEnd == pc = "bound" /\ \E x \in Clock, u \in {Zero(tf.inst.nr)} \cup (IF dual.set THEN {} ELSE {Half(tf.inst.nr)}) : EndBound(ph.lb, u, x) /\ now' = x /\ T
mHeur == pc = "bounded" /\ BeginHeur(ph.cut, now) /\ now' = now /\ T
mTry == /\ pc = "heur" /\ ph.n < par.heur /\ now' = now /\ T
        /\ \E s \in Covers(CoreInst(tf, core)) :
              LET c == CostOf(CoreInst(tf, core), s) IN HeurTry(s, c, c < ph.cut, now)
mEndHeur == pc = "heur" /\ \E x \in Clock : EndHeur(ph.sel, ph.cost, Zero(tf.inst.nr), x) /\ now' = x /\ T
mFix == pc = "fix" /\ now' = now /\ T
        /\ \E s \in Sub(tf.inst) : s # <<>> /\ Len(s) <= 2 /\ Fix3P(s, FixOp(tf, s), now)
mKeep == pc = "fixed" /\ KeepMults(Zero(tf.inst.nr), <<>>) /\ now' = now /\ T
mPrice3 == /\ pc = "price" /\ now' = now /\ T
           /\ \E lb \in (IF tf.inst.nr = 0 THEN {0} ELSE Bounds(tf.inst)), m \in (IF tf.inst.nr = 0 THEN {core} ELSE Sound(tf)) :
                 Price3P(lb, m, now)
mExit == pc \in {"bounded", "priced"} /\ Exit3P(tbest.sel, tbest.cost, tdual.lb, tdual.u, now) /\ now' = now /\ T
mTake == pc = "returned" /\ TakeOver /\ now' = now /\ T
mRefFix == /\ pc = "decide" /\ T
           /\ \E x \in Clock, s \in Sub(orig) : RefFix(s, FixOp(IdFix(orig), s), TRUE, x) /\ now' = x
mFinish == pc \in {"decide", "round"} /\ Finish(best.sel, best.cost, dual.lb, now) /\ now' = now /\ T
mDone == pc = "done" /\ UNCHANGED mcvars

MCNext == mStart \/ mEnter \/ mGreedy \/ mBegin \/ mPrice \/ mEnd \/ mHeur \/ mTry \/ mEndHeur \/ mFix \/ mKeep
          \/ mPrice3 \/ mExit \/ mTake \/ mRefFix \/ mFinish \/ mDone
MCSpec == MCInit /\ [][MCNext]_mcvars
FairSpec == MCSpec /\ WF_mcvars(MCNext)

------------------------------------------------------------------------------
\* what the phases' contracts and the control flow imply
InvBest == best.sel # <<>> => IsCover(orig, best.sel) /\ Near(best.cost, CostOf(orig, best.sel), Len(best.sel))
InvRound == pc \in {"bound", "bounded", "heur", "fix", "fixed", "price", "priced", "returned"} =>
                IsCover(tin, tbest.sel) /\ Near(tbest.cost, CostOf(tin, tbest.sel), Len(tbest.sel))
\* a cover of what is left plus the fixed columns covers the instance of the round
InvFix == pc \in {"bound", "bounded", "heur", "fix", "fixed", "price", "priced"} =>
                \A s \in Covers(tf.inst) :
                    LET full == tf.fixed \o Compose(tf.cmap, s)
                    IN IsCover(tin, full) /\ CostOf(tin, full) = CostOf(tf.inst, s) + tf.fcost
InvDual == dual.set => dual.lb <= Opt(orig) /\ Len(dual.u) = orig.nr
InvWarm == pc \notin {"start"} => best.cost <= wcost
InvLate == late <= 1
InvFrac == pc \notin {"start"} => frac.f \in 0 .. 100000 /\ (pc # "round" \/ frac.f = 0 \/ frac.f >= par.minfix)
InvDone == pc = "done" => IsCover(orig, best.sel) /\ dual.lb <= best.cost
\* the incumbents only get better, and within a round too
Monotone == [][/\ (pc # "start" => best'.cost <= best.cost)
               /\ (pc \in {"bound", "bounded", "heur", "fix", "fixed", "price", "priced"} => tbest'.cost <= tbest.cost)]_mcvars
\* every fixing removes rows: the 3-phase cannot go on for ever
Progress3P == [][pc = "fix" /\ pc' = "fixed" => tf'.inst.nr < tf.inst.nr]_mcvars
Termination == <>(pc = "done")
=============================================================================
