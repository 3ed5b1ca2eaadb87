------------------------------- MODULE TextRes -------------------------------
EXTENDS Text, RecordLoop
Is(e) == R.e = e
\* a number ends at the end of the text or before a blank
Ends(n) == n = Len(R.s) \/ IsSpace(R.s[n + 1])
\* reading an integer: r = [parse ok, consume ok, value (neg, digits), characters left]
Value(neg, d) == [neg |-> neg /\ Strip(d) # <<>>, d |-> Strip(d)]
IntOK == Is("int") =>
    LET v == IntPrefix(R.s)
        fits == v.ok /\ Ends(v.n) /\ (IF R.lo = <<>> THEN (~v.neg \/ v.d = <<>>) /\ LeqD(v.d, R.hi) ELSE FitsInt(v, R.lo, R.hi))
        whole == fits /\ Trim(From(R.s, v.n + 1)) = <<>>
    IN /\ R.cok = fits
       /\ R.cok => R.left = From(R.s, v.n + 1) /\ Value(R.cneg, R.cd) = Value(v.neg, v.d)
       /\ ~R.cok => R.left = R.s
       /\ R.pok = whole
       /\ R.pok => Value(R.pneg, R.pd) = Value(v.neg, v.d)
\* reading a real: the value read is the closest one, i.e. the literal lies between the values halfway to its neighbours
RealOK == Is("real") =>
    LET v == RealPrefix(R.s)
        fits == v.ok /\ Ends(v.n) /\ LeqReal(v.d, v.e, R.maxd, 0)
        whole == fits /\ Trim(From(R.s, v.n + 1)) = <<>>
        near(lo, hi, f) == LeqReal(lo, f, v.d, v.e) /\ LeqReal(v.d, v.e, hi, f)
    IN /\ R.cok = fits
       /\ R.cok => R.left = From(R.s, v.n + 1) /\ near(R.clo, R.chi, R.cf) /\ (R.cneg => v.neg) /\ (v.neg => R.cneg \/ R.czero)
       /\ ~R.cok => R.left = R.s
       /\ R.pok = whole
       /\ R.pok => R.same
Pair(i) == SubSeq(R.a, 1, i)
ViewOK == Is("view") =>
    /\ R.ltrim = LTrim(R.s) /\ R.rtrim = RTrim(R.s) /\ R.trim = Trim(R.s) /\ R.split = Split(R.s)
    /\ R.size = Len(R.s) /\ R.empty = (R.s = <<>>) /\ R.copy = R.s /\ R.chars = R.s
    /\ R.pre = From(R.s, R.i + 1) /\ R.suf = Upto(R.s, R.i) /\ R.sub = SubSeq(R.s, R.i + 1, R.j)
    /\ R.first = (LET f == FirstAt(R.s, IsSpace) IN IF f = 0 THEN Len(R.s) ELSE f - 1)
    /\ R.last = (LET f == LastAt(R.s, IsSpace) IN IF f = 0 THEN Len(R.s) ELSE f - 1)
CmpOK == Is("cmp") =>
    LET l == Less(R.a, R.b)
        eq == R.a = R.b
    IN R.eq = eq /\ R.ne = ~eq /\ R.lt = l /\ R.le = (l \/ eq) /\ R.gt = (~l /\ ~eq) /\ R.ge = ~l
       /\ R.cmp = (IF eq THEN 0 ELSE IF l THEN -1 ELSE 1) /\ R.ceq = eq
FileOK == Is("file") =>
    LET L == Lines(R.s) IN \A i \in DOMAIN R.lines : R.lines[i] = IF i \in DOMAIN L THEN Trim(L[i]) ELSE <<>>
=============================================================================
