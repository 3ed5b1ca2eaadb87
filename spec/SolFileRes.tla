----------------------------- MODULE SolFileRes -----------------------------
(***************************************************************************)
(* Solutions written to files and read back.  `got` tells whether the file *)
(* could take all that was written, txt is what the file holds.            *)
(***************************************************************************)
EXTENDS FileFormats, RecordLoop
cRLo == Recs[1].rlo
cRHi == Recs[1].rhi
cCLo == Recs[1].clo
cCHi == Recs[1].chi
cRealMax == Recs[1].rmax
Value(neg, d) == [neg |-> neg /\ Strip(d) # <<>>, d |-> Strip(d)]
Between(lo, hi, f, v) == LeqReal(lo, f, v.d, v.e) /\ LeqReal(v.d, v.e, hi, f)
\* reported as written: then it reads back bit by bit
RoundTrip == R.wrote => R.read /\ R.idxs2 = R.idxs /\ R.bits2 = R.bits
\* and the text says so to anybody
Meaning == R.wrote =>
    LET L == TokLines(R.txt)
        c == RealTok(L[1][1])
    IN /\ Len(NonBlank(L)) = 1 /\ Len(L[1]) = 1 + Len(R.idxs)
       /\ c.ok /\ Between(R.cost.lo, R.cost.hi, R.cost.f, c) /\ (c.d = <<>> \/ c.neg = R.cost.neg)
       /\ \A i \in DOMAIN R.idxs : LET v == IntPrefix(L[1][i + 1])
                                   IN v.ok /\ v.n = Len(L[1][i + 1]) /\ Value(v.neg, v.d) = Value(R.idxs[i].neg, R.idxs[i].d)
\* a file that can be written is, one that cannot take it all is an error
Reported == R.fits = R.wrote
=============================================================================
