------------------------------- MODULE Results -------------------------------
(***************************************************************************)
(* What may be returned for an instance: the relations between an instance *)
(* (and warm start) and the result of run / ThreePhase / accft / Python.   *)
(* One record per call; `full` says that the optimum is to be computed.    *)
(***************************************************************************)
EXTENDS SetCover, TLC, TLCExt, Json, IOUtils

CONSTANT NW
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1 .. Min2(NW, Len(Recs))
Next == k + NW <= Len(Recs) /\ k' = k + NW
Spec == Init /\ [][Next]_k

R == Recs[k]
Inst(r) == [nr |-> r.nr, cols |-> r.cols, costs |-> r.costs]

\* exact = TRUE: all costs are dyadic and small, sums are exact
T(r, n) == IF r.exact THEN 0 ELSE n

Solved == R.ok
C01_Cover == R.ok /\ IsCover(Inst(R), R.sol)
C02_Cost == R.ok => LET c == CostOf(Inst(R), R.sol)
                    IN IF R.exact THEN R.cost = c ELSE Near(R.cost, c, Len(R.sol))
C03_Bound == (R.ok /\ R.hasdual) =>
    /\ Leq(R.lb, R.cost, Len(R.sol) + 1)
    /\ R.full => Leq(R.lb, Opt(Inst(R)), Len(R.sol) + 1)
    /\ Leq(R.lb, R.known, Len(R.sol) + 1)       \* cost of the best cover known for it
C03_Mults == (R.ok /\ R.hasmults) => R.nm = R.nr /\ ~R.mneg /\ R.mfin /\ ~R.mbig
\* the warm start: cmp is the comparison of the exact reals (-1: the result is strictly cheaper)
C04_Warm == (R.ok /\ R.hasws) =>
    /\ IsCover(Inst(R), R.sol)
    /\ R.cmp <= 0
    /\ R.cmp = 0 => R.sol = R.ws
    /\ (R.exact => R.cost <= CostOf(Inst(R), R.ws))
    /\ Leq(R.cost, CostOf(Inst(R), R.ws), Len(R.ws) + Len(R.sol))
=============================================================================
