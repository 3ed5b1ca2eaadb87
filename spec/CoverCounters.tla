---------------------------- MODULE CoverCounters ----------------------------
(* Multiset coverage: cnt[i] is how often element i is covered. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cnt, ret
cvars == <<cnt, ret>>
B(b) == IF b THEN 1 ELSE 0
Elems == DOMAIN cnt
New(n) == cnt' = [i \in 0 .. n - 1 |-> 0] /\ ret' = 0
Cover(S) == /\ S \subseteq Elems
            /\ cnt' = [i \in Elems |-> cnt[i] + B(i \in S)]
            /\ ret' = Cardinality({i \in S : cnt[i] = 0})
Uncover(S) == /\ S \subseteq Elems /\ \A i \in S : cnt[i] > 0
              /\ cnt' = [i \in Elems |-> cnt[i] - B(i \in S)]
              /\ ret' = Cardinality({i \in S : cnt[i] = 1})
\* k covers (uncovers) of the same subset in a row; ret is the sum of what they return
CoverN(S, k) == /\ S \subseteq Elems /\ k > 0
                /\ cnt' = [i \in Elems |-> cnt[i] + k * B(i \in S)]
                /\ ret' = Cardinality({i \in S : cnt[i] = 0})
UncoverN(S, k) == /\ S \subseteq Elems /\ k > 0 /\ \A i \in S : cnt[i] >= k
                  /\ cnt' = [i \in Elems |-> cnt[i] - k * B(i \in S)]
                  /\ ret' = Cardinality({i \in S : cnt[i] = k})
QCover(S) == S \subseteq Elems /\ ret' = B(\A i \in S : cnt[i] > 0) /\ UNCHANGED cnt
QUncover(S) == S \subseteq Elems /\ ret' = B(\A i \in S : cnt[i] > 1) /\ UNCHANGED cnt
=============================================================================
