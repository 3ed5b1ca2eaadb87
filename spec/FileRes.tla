------------------------------- MODULE FileRes -------------------------------
(* Files given to the parser, and what came out. *)
EXTENDS FileFormats, RecordLoop
cRLo == Recs[1].rlo
cRHi == Recs[1].rhi
cCLo == Recs[1].clo
cCHi == Recs[1].chi
cRealMax == Recs[1].rmax
Want == LET w == Read(R.fmt, R.txt, R.hasw) IN IF R.hasw THEN WithInit(w, R.ws) ELSE w
One == [d |-> <<1>>, e |-> 0]
Between(lo, hi, f, v) == LeqReal(lo, f, v.d, v.e) /\ LeqReal(v.d, v.e, hi, f)
Same(w) ==
    LET S == TLCEval([j \in DOMAIN w.cols |-> Set(w.cols[j])])
        SortedCols(i) == LET P == Places(S, LAMBDA j : i \in S[j]) IN [q \in DOMAIN P |-> P[q] - 1]
    IN
    /\ R.nr = w.nr /\ Len(R.cols) = Len(w.cols) /\ Len(R.cost) = Len(w.cols)
    /\ \A j \in DOMAIN w.cols : Len(R.cols[j]) = Len(w.cols[j]) /\ Set(R.cols[j]) = Set(w.cols[j])
    /\ \A j \in DOMAIN w.cols : LET c == R.cost[j]
                                    v == IF R.unit THEN One ELSE w.costs[j]
                                IN Between(c.lo, c.hi, c.f, v) /\ (c.neg = (~R.unit /\ v.neg) \/ v.d = <<>>)
    /\ Len(R.rows) = w.nr /\ \A i \in 1 .. w.nr : R.rows[i] = SortedCols(i - 1)
    /\ R.init = (IF w.hasinit THEN w.init ELSE <<>>)
Abs(x) == IF x < 0 THEN -x ELSE x
\* the cost of the initial solution: the sum of the costs read, in units of R.scale (ic: the cost, kc: the costs)
InitCost(w) ==
    LET s == FoldLeft(LAMBDA a, j : a + R.kc[j + 1], 0, R.init)
    IN w.hasinit => (IF R.exact THEN R.ic = s ELSE Abs(R.ic - s) <= Len(R.init) + 1 + Abs(s) \div 131072)
WellFormedRead == LET w == Want IN w.v = "ok" => R.ok /\ Same(w) /\ InitCost(w)
MalformedRefused == LET w == Want IN w.v = "bad" => ~R.ok
NeverMisread == LET w == Want IN (w.v = "any" /\ R.ok) => Same(w) /\ InitCost(w)
\* for the evidence
Kinds == PrintT(<<"@v", Want.v>>)
=============================================================================
