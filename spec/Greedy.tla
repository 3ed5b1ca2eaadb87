------------------------------- MODULE Greedy -------------------------------
(***************************************************************************)
(* The greedy procedure as a state machine: columns are added one at a     *)
(* time by score, then redundant ones are removed (the costliest first     *)
(* while more than EnumVars are redundant, the rest optimally).            *)
(* `job` is the call: [inst, u, w, inp, cut, max]; row i stands for w[i+1] *)
(* identical rows (blocks of rows make instances with very many rows small *)
(* enough to be explored).                                                 *)
(***************************************************************************)
EXTENDS SetCover

EnumVars == 10
VARIABLES job, pc, sel, kept, red
gvars == <<job, pc, sel, kept, red>>

Uncov == Rows(job.inst) \ CoveredBy(job.inst, sel)
Mu(j) == FoldLeft(LAMBDA a, i : IF i \in Uncov THEN a + job.w[i + 1] ELSE a, 0, job.inst.cols[j + 1])
Gamma(j) == FoldLeft(LAMBDA a, i : IF i \in Uncov THEN a - job.w[i + 1] * job.u[i + 1] ELSE a, job.inst.costs[j + 1], job.inst.cols[j + 1])
\* comparison of scores: gamma/mu when gamma is positive, gamma*mu otherwise
Less(g1, m1, g2, m2) ==
    IF g1 > 0 /\ g2 > 0 THEN g1 * m2 < g2 * m1
    ELSE IF g1 > 0 THEN FALSE
    ELSE IF g2 > 0 THEN TRUE
    ELSE g1 * m1 < g2 * m2
Cand == {j \in Cols(job.inst) : Mu(j) > 0}
ArgMin == LET g == [j \in Cand |-> Gamma(j)]
              m == [j \in Cand |-> Mu(j)]
          IN {j \in Cand : \A q \in Cand : ~Less(g[q], m[q], g[j], m[j])}

SumCost(S) == SumOver(job.inst.costs, S)
\* columns of T not needed for what T covers
Spare(T) == {j \in T : ColSet(job.inst, j) \subseteq CoveredBy(job.inst, T \ {j})}

Call(jb) ==
    /\ job' = jb /\ pc' = "add" /\ sel' = Range0(jb.inp) /\ kept' = {} /\ red' = {}

\* a call that has nothing to do leaves the solution as it is
Idle == Cardinality(sel) >= job.max \/ Uncov = {}

Add == /\ pc = "add" /\ Uncov # {} /\ Cardinality(sel) < job.max
       /\ \E j \in ArgMin : sel' = sel \cup {j}
       /\ UNCHANGED <<job, pc, kept, red>>
Split == /\ pc = "add" /\ (Uncov = {} \/ Cardinality(sel) >= job.max)
         /\ sel # Range0(job.inp)
         /\ red' = Spare(sel) /\ kept' = sel \ Spare(sel) /\ pc' = "red"
         /\ UNCHANGED <<job, sel>>
Enough == CoveredBy(job.inst, kept) = CoveredBy(job.inst, sel)
Drop == /\ pc = "red" /\ Cardinality(red) > EnumVars /\ ~Enough
        /\ \E j \in red : /\ \A q \in red : job.inst.costs[q + 1] <= job.inst.costs[j + 1]
                          /\ LET T == (kept \cup red) \ {j}
                             IN red' = (red \ {j}) \cap Spare(T) /\ kept' = T \ ((red \ {j}) \cap Spare(T))
        /\ UNCHANGED <<job, pc, sel>>
Decided == pc = "red" /\ (Cardinality(red) <= EnumVars \/ Enough)

\* the least cost of keeping what is necessary of `red` to cover the rows in U
RECURSIVE Least(_, _)
Least(S, U) ==
    IF U = {} THEN 0
    ELSE LET r == MinOf(U)
             J == {j \in S : r \in ColSet(job.inst, j)}
         IN IF J = {} THEN INF
            ELSE MinOf({LET o == Least(S, U \ ColSet(job.inst, j)) IN IF o = INF THEN INF ELSE o + job.inst.costs[j + 1] : j \in J})
Best == IF Enough THEN SumCost(kept)
        ELSE SumCost(kept) + Least(red, CoveredBy(job.inst, sel) \ CoveredBy(job.inst, kept))

\* what may be returned
Returns(sol, ret) ==
    /\ Decided
    /\ NoDup(sol)
    /\ IF Best < job.cut
       THEN /\ ret = Best
            /\ Range0(sol) \subseteq kept \cup red
            /\ CoveredBy(job.inst, Range0(sol)) = CoveredBy(job.inst, sel)
            /\ CostOf(job.inst, sol) = Best
       ELSE ret >= job.cut
\* an attempt may be given up as soon as the columns that must stay cost too much
GivesUp(ret) == pc = "red" /\ SumCost(kept) >= job.cut /\ ret >= job.cut
Nothing(sol, ret) == pc = "add" /\ sel = Range0(job.inp) /\ Idle /\ sol = job.inp /\ ret >= job.cut

(***************************************************************************)
(* The guarantees, checked on the design (GreedyMC)                        *)
(***************************************************************************)
CoverKept == pc = "red" => CoveredBy(job.inst, kept \cup red) = CoveredBy(job.inst, sel)
Complete == (pc = "red" /\ job.max >= job.inst.nr + Len(job.inp)) => Uncov = {}
Needed == pc = "red" => \A j \in kept : ~(ColSet(job.inst, j) \subseteq CoveredBy(job.inst, (kept \cup red) \ {j}))
\* at most ten redundant columns: no subset of the selection covering the same rows is cheaper
Optimal == (Decided /\ Cardinality(Spare(sel)) <= EnumVars) =>
    \A S \in SUBSET sel : CoveredBy(job.inst, S) = CoveredBy(job.inst, sel) => SumCost(S) >= Best
\* scores never get better while rows get covered (what makes keeping only the best ones correct)
ScoresGrow == [][(pc = "add" /\ pc' = "add") =>
    \A j \in Cand : (\E i \in ColSet(job.inst, j) : i \in Uncov') => ~Less(Gamma(j)', Mu(j)', Gamma(j), Mu(j))]_gvars
=============================================================================
