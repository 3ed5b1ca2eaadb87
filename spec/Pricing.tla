------------------------------- MODULE Pricing -------------------------------
(***************************************************************************)
(* What pricing a (residual) instance must yield: the Lagrangian bound and *)
(* the core instance.  Ties between equal reduced costs are left free.     *)
(***************************************************************************)
EXTENDS SetCover

MinCov == 5
\* keys of the set of columns J, sorted
Keys(rc, J) == SortSeq([i \in 1 .. Cardinality(J) |-> rc[SetToSeq(J)[i] + 1]], <)
FirstN(s, n) == SubSeq(s, 1, Min2(n, Len(s)))

\* columns below the threshold (a tenth), for costs scaled by s
C1(rc, s) == {j \in 0 .. Len(rc) - 1 : 10 * rc[j + 1] < s}
\* among the columns of row i, at most four are strictly cheaper
InC2(inst, rc, j) == \E i \in ColSet(inst, j) :
    Cardinality({q \in Cols(inst) : i \in ColSet(inst, q) /\ rc[q + 1] < rc[j + 1]}) < MinCov

GoodSelection(inst, rc, M, s) ==
    LET c1 == C1(rc, s)
        cap == 5 * inst.nr
        kth == IF Cardinality(c1) > cap THEN Keys(rc, c1)[cap] ELSE 0
        chosen == IF Cardinality(c1) <= cap THEN c1 ELSE {j \in c1 : rc[j + 1] <= kth}
    IN /\ IF Cardinality(c1) <= cap THEN c1 \subseteq M
          ELSE /\ {j \in c1 : rc[j + 1] < kth} \subseteq M
               /\ Cardinality({j \in M : rc[j + 1] <= kth}) >= cap
       \* every row has its five best
       /\ \A i \in Rows(inst) :
            LET row == {j \in Cols(inst) : i \in ColSet(inst, j)}
            IN FirstN(Keys(rc, row \cap M), MinCov) = FirstN(Keys(rc, row), MinCov)
       \* and nothing else
       /\ \A j \in M \ chosen : InC2(inst, rc, j)

CopyOf(inst, map, c) ==
    /\ c.cols = [i \in DOMAIN map |-> inst.cols[map[i] + 1]]
    /\ c.costs = [i \in DOMAIN map |-> inst.costs[map[i] + 1]]
    /\ c.nr = inst.nr
=============================================================================
