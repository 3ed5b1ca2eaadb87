------------------------------ MODULE GreedyMC ------------------------------
EXTENDS Greedy
CONSTANTS NR, NCols, CostSet, USet, WSet
NonEmpty == {SetToSortSeq(S, <) : S \in (SUBSET (0 .. NR - 1)) \ {{}}}
MCEnumVars == 2
MCInit == \E c \in [1 .. NCols -> NonEmpty], k \in [1 .. NCols -> CostSet], u \in [1 .. NR -> USet], w \in [1 .. NR -> WSet], m \in {2, 100}, ct \in {3, INF} :
    LET i == [nr |-> NR, cols |-> c, costs |-> k]
    IN /\ CoveredBy(i, Cols(i)) = Rows(i)
       /\ job = [inst |-> i, u |-> u, w |-> w, inp |-> <<>>, cut |-> ct, max |-> m]
       /\ pc = "add" /\ sel = {} /\ kept = {} /\ red = {}
MCSpec == MCInit /\ [][Add \/ Split \/ Drop]_gvars /\ WF_gvars(Add \/ Split \/ Drop)
Ends == <>Decided
=============================================================================
