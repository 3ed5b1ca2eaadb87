----------------------------- MODULE CoverTrace -----------------------------
EXTENDS CoverCounters, TraceLoop
Set(s) == {s[i] : i \in DOMAIN s}
Obs == Len(E.cnt) = Cardinality(DOMAIN cnt') /\ \A i \in DOMAIN cnt' : E.cnt[i + 1] = cnt'[i]
TInit == LoopInit /\ cnt = <<>> /\ ret = 0
tNew == Is("new") /\ New(E.n) /\ Obs
tReset == Is("reset") /\ New(E.n) /\ Obs
tCover == Is("cover") /\ Cover(Set(E.s)) /\ E.ret = ret' /\ Obs
tUncover == Is("uncover") /\ Uncover(Set(E.s)) /\ E.ret = ret' /\ Obs
tCoverN == Is("covern") /\ CoverN(Set(E.s), E.k) /\ E.ret = ret' /\ Obs
tUncoverN == Is("uncovern") /\ UncoverN(Set(E.s), E.k) /\ E.ret = ret' /\ Obs
tQC == Is("qcover") /\ QCover(Set(E.s)) /\ E.ret = ret' /\ Obs
tQU == Is("quncover") /\ QUncover(Set(E.s)) /\ E.ret = ret' /\ Obs
TraceSpec == TInit /\ [][tNew \/ tReset \/ tCover \/ tUncover \/ tCoverN \/ tUncoverN \/ tQC \/ tQU]_<<cvars, t, l>>
=============================================================================
