------------------------------ MODULE GreedyRes ------------------------------
(* Larger calls and arbitrary reals: what the result must satisfy whatever was selected. *)
EXTENDS SetCover, RecordLoop
BigMax == 1000000000
Inst == [nr |-> R.nr, cols |-> R.cols, costs |-> R.costs]
Valid == R.below => /\ ValidSel(Inst, R.sol)
                    /\ R.max >= BigMax => CoveredBy(Inst, Range0(R.sol)) = Rows(Inst)
                    /\ Near(R.ret, CostOf(Inst, R.sol), Len(R.sol))
                    /\ Len(R.sol) <= Max2(R.max, Len(R.inp))
Above == ~R.below => Leq(R.cut, R.ret, 2)
\* nothing superfluous with positive cost is left when few columns could be redundant
Lean == (R.below /\ Len(R.sol) <= 10) =>
    \A j \in Range0(R.sol) : ColSet(Inst, j) \subseteq CoveredBy(Inst, Range0(R.sol) \ {j}) => Near(R.costs[j + 1], 0, Len(R.sol))
Unchanged == R.same
=============================================================================
