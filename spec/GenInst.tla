------------------------------ MODULE GenInst ------------------------------
(***************************************************************************)
(* Enumerates all feasible instances with NR rows and at most MaxCols      *)
(* columns (up to the order of the columns) with costs in CostSet.         *)
(* Every instance is printed as one line  @@[nr, [[cost, rows...], ...]]   *)
(***************************************************************************)
EXTENDS SetCover, TLC, Json
CONSTANTS NR, MaxCols, CostSet
VARIABLE kinds
Masks == SUBSET (0 .. NR - 1) \ {{}}
Code(S) == FoldLeft(LAMBDA a, x : a + 2 ^ x, 0, SetToSeq(S))
Init == kinds = <<>>
Key(q) == q.m * 1000 + q.c
Kinds == {[m |-> Code(S), c |-> c, rows |-> SetToSortSeq(S, <)] : S \in Masks, c \in CostSet}
Covered(ks) == UNION {Range0(ks[i].rows) : i \in DOMAIN ks}
Emit(ks) == Covered(ks) = 0 .. NR - 1 =>
               PrintT("@@" \o ToJson([nr |-> NR, cols |-> [i \in DOMAIN ks |-> ks[i].rows],
                                       costs |-> [i \in DOMAIN ks |-> ks[i].c]]))
Next == /\ Len(kinds) < MaxCols
        /\ \E q \in Kinds :
              /\ Len(kinds) > 0 => Key(kinds[Len(kinds)]) <= Key(q)
              /\ kinds' = Append(kinds, q)
              /\ Emit(kinds')
Spec == Init /\ [][Next]_kinds
=============================================================================
