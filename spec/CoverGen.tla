------------------------------ MODULE CoverGen ------------------------------
(* All histories of up to MaxLen operations on N elements, written as stimuli; the design's meaning
   (counter = covers minus uncovers since the last reset) is checked on each of them. *)
EXTENDS CoverCounters, TLC, Json, SequencesExt
CONSTANTS N, MaxLen
VARIABLE h
S0 == SUBSET (0 .. N - 1)
GInit == cnt = [i \in 0 .. N - 1 |-> 0] /\ ret = 0 /\ h = <<>>
Log(op, S) == h' = Append(h, [op |-> op, s |-> SetToSortSeq(S, <)])
GNext == /\ Len(h) < MaxLen
         /\ \/ \E S \in S0 : Cover(S) /\ Log(0, S)
            \/ \E S \in S0 : S # {} /\ Uncover(S) /\ Log(1, S)
            \/ Len(h) = MaxLen - 1 /\ \E S \in S0 : (QCover(S) /\ Log(2, S)) \/ (QUncover(S) /\ Log(3, S))
            \/ Len(h) > 0 /\ New(N) /\ Log(4, {})
GSpec == GInit /\ [][GNext]_<<cvars, h>>
LastReset == IF \E q \in DOMAIN h : h[q].op = 4 THEN CHOOSE q \in DOMAIN h : h[q].op = 4 /\ \A p \in DOMAIN h : h[p].op = 4 => p <= q ELSE 0
Count(op, i) == Cardinality({q \in (LastReset + 1) .. Len(h) : h[q].op = op /\ i \in {h[q].s[x] : x \in DOMAIN h[q].s}})
Counts == \A i \in 0 .. N - 1 : cnt[i] = Count(0, i) - Count(1, i)
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson(h))
=============================================================================
