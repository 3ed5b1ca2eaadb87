------------------------------ MODULE SelectMC ------------------------------
(* The array holds exactly the cap smallest keys of all that was offered since it was cleared. *)
EXTENDS Select, SequencesExt
CONSTANTS Keys, Caps, MaxOps
VARIABLE h
FrontOf(s) == SubSeq(s, 1, Len(s) - 1)
MCInit == cap \in Caps /\ arr = <<>> /\ taken = TRUE /\ h = <<>>
Ins(s, x) == LET lo == SelectSeq(s, LAMBDA y : y.k <= x.k)
                 hi == SelectSeq(s, LAMBDA y : y.k > x.k) IN lo \o <<x>> \o hi
MCNext == \/ Len(h) < MaxOps /\ \E k \in Keys : LET x == [k |-> k, id |-> Len(h)] IN
                /\ h' = Append(h, k)
                /\ \/ Offer(x, Ins(arr, x), TRUE)
                   \/ Len(arr) = cap /\ Offer(x, Ins(FrontOf(arr), x), TRUE)
                   \/ Offer(x, arr, FALSE)
          \/ Len(h) > 0 /\ Clear /\ h' = <<>>

MCSpec == MCInit /\ [][MCNext]_<<svars, h>>
Smallest == [i \in DOMAIN arr |-> arr[i].k] = LET s == SortSeq(h, <) IN SubSeq(s, 1, IF Len(s) < cap THEN Len(s) ELSE cap)
=============================================================================
