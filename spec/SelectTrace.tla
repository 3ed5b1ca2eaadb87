----------------------------- MODULE SelectTrace -----------------------------
EXTENDS Select, TraceLoop
Pairs(ks, is) == [i \in DOMAIN ks |-> [k |-> ks[i], id |-> is[i]]]
After == Pairs(E.ks, E.ids)
Seen == E.sz = Len(arr') /\ E.ix = E.ids /\ (arr' # <<>> => E.back = arr'[Len(arr')].id)
TInit == LoopInit /\ cap = 0 /\ arr = <<>> /\ taken = TRUE
tNew == Is("new") /\ New(E.n) /\ E.sz = 0
tClear == Is("clear") /\ Clear /\ Seen /\ After = <<>>
tTry == Is("try") /\ Offer([k |-> E.k, id |-> E.id], After, E.taken) /\ Seen
tInsert == Is("insert") /\ Len(arr) < cap /\ Offer([k |-> E.k, id |-> E.id], After, TRUE) /\ Seen
Before == Pairs(E.ks0, E.ids0)
tSort == Is("sort") /\ IsSorted(Before, After) /\ UNCHANGED svars
tNth == Is("nth") /\ IsNth(Before, After, E.n) /\ UNCHANGED svars
tMin == Is("min") /\ IsMin(Before, After[1]) /\ IsMin(Before, After[2]) /\ UNCHANGED svars
Hit(x) == (x.id % E.a) = E.b
tRemove == Is("remove") /\ After = SelectSeq(Before, LAMBDA x : ~Hit(x))
           /\ E.any = (\E i \in DOMAIN Before : Hit(Before[i])) /\ E.all = (\A i \in DOMAIN Before : Hit(Before[i])) /\ UNCHANGED svars
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
First(n) == {E.v[i] : i \in 1 .. n}
AbsV(x) == IF x < 0 THEN -x ELSE x
tInts == Is("ints") /\ UNCHANGED svars
    /\ E.min2 = MinSet(First(2)) /\ E.max2 = MaxSet(First(2)) /\ E.min3 = MinSet(First(3)) /\ E.max3 = MaxSet(First(3))
    /\ E.min4 = MinSet(First(4)) /\ E.max4 = MaxSet(First(4)) /\ E.abs = AbsV(E.v[1]) /\ E.fabs = AbsV(E.v[2])
    /\ (LET lo == MinSet({E.v[2], E.v[3]})
           hi == MaxSet({E.v[2], E.v[3]}) IN E.clamp = (IF E.v[1] < lo THEN lo ELSE IF E.v[1] > hi THEN hi ELSE E.v[1]))
    /\ E.rmin = MinSet(First(Len(E.v))) /\ E.crmin = MinSet(First(3)) /\ E.csz = 3 /\ E.sz = Len(E.v)
    /\ IsSorted([i \in DOMAIN E.v |-> [k |-> E.v[i]]], [i \in DOMAIN E.srt |-> [k |-> E.srt[i]]])
TraceSpec == TInit /\ [][tNew \/ tClear \/ tTry \/ tInsert \/ tSort \/ tNth \/ tMin \/ tRemove \/ tInts]_<<svars, t, l>>
=============================================================================
