------------------------------ MODULE SessionMC ------------------------------
(* The design: all sessions of two solvers with few sets; files may bring a solution. *)
EXTENDS Session
CONSTANTS NE, MaxSets, CostSet
Sets1 == (SUBSET (0 .. NE - 1)) \ {{}}
Loadable == {<<[els |-> 0 .. e, cost |-> c]>> : e \in 0 .. NE - 1, c \in CostSet}
MCNext == \E w \in Ids :
    \/ Len(sets[w]) < MaxSets /\ \E els \in Sets1, c \in CostSet : Add(w, els, c)
    \/ \E S \in SUBSET (0 .. Len(sets[w]) - 1) : LET s == SetToSortSeq(S, <) IN Solve(w, s, CostOf(InstOf(sets[w]), s))
    \/ \E ss \in Loadable, s \in {<<>>, <<0>>} : Load(w, ss, s)
MCSpec == SInit /\ [][MCNext]_svars
\* a solver with an element in no set knows no solution, and can be completed
GapKnowsNothing == \A w \in Ids : ~Complete(sets[w]) => ~res[w].has
Usable == \A w \in Ids : Len(sets[w]) < MaxSets => ENABLED (\E c \in CostSet : Add(w, 0 .. NE - 1, c))
=============================================================================
