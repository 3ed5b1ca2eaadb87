----------------------------- MODULE FileFormats -----------------------------
(***************************************************************************)
(* What the four instance formats and the solution file mean: from the     *)
(* characters of a file to the instance it describes, or to the verdict    *)
(* that it describes none.                                                 *)
(*                                                                         *)
(* Verdicts: "ok"   well formed, must be read as the instance given here   *)
(*           "bad"  describes no instance, must be refused                 *)
(*           "any"  may be refused, but if accepted, as given here         *)
(*           "skip" outside what the formats define                        *)
(***************************************************************************)
EXTENDS Text, SequencesExt, TLC
\* limits of the index types: digits of the magnitudes of the least and largest row and column index, largest real
CONSTANTS RLo, RHi, CLo, CHi, RealMax

TokLines(txt) == LET L == Lines(txt) IN TLCEval([i \in DOMAIN L |-> TLCEval(Split(L[i]))])
NonBlank(L) == SelectSeq(L, LAMBDA t : t # <<>>)
LastNB(L) == LastAt(L, LAMBDA t : t # <<>>)
InnerBlank(L) == \E i \in DOMAIN L : L[i] = <<>> /\ i < LastNB(L)

\* ---- numbers
Clamp(d) == Nat10(d, 0)                      \* exact up to 10^5 and beyond that at least 10^5
IntTok(t, lo, hi) ==
    LET v == IntPrefix(t)
    IN [ok |-> v.ok /\ v.n = Len(t) /\ (IF v.neg THEN LeqD(v.d, lo) ELSE LeqD(v.d, hi)), v |-> (IF v.neg THEN -1 ELSE 1) * Clamp(v.d)]
RIdx(t) == IntTok(t, RLo, RHi)
CIdx(t) == IntTok(t, CLo, CHi)
Fits(n, hi) == n <= Clamp(hi)
RealTok(t) == LET v == RealPrefix(t) IN [ok |-> v.ok /\ v.n = Len(t) /\ LeqReal(v.d, v.e, RealMax, 0), d |-> v.d, e |-> v.e, neg |-> v.neg /\ v.d # <<>>]
ZeroCost == [ok |-> TRUE, d |-> <<>>, e |-> 0, neg |-> FALSE]
LeqTok(a, b) == LeqReal(a.d, a.e, b.d, b.e)
\* v raised in its sixth digit: costs nearer than this may be the same once rounded
RECURSIVE Inc(_, _)
Inc(d, k) == IF k = 0 THEN <<1>> \o d ELSE IF d[k] < 9 THEN [d EXCEPT ![k] = @ + 1] ELSE Inc([d EXCEPT ![k] = 0], k - 1)
Raised(v) == LET d == Strip(v.d)
                 p == d \o Zeros(IF Len(d) < 6 THEN 6 - Len(d) ELSE 0)
             IN IF d = <<>> THEN v ELSE [v EXCEPT !.d = Inc(p, 6), !.e = v.e - (Len(p) - Len(d))]
IsOne(v) == LeqReal(v.d, v.e, <<1>>, 0) /\ LeqReal(<<1>>, 0, v.d, v.e)

\* ---- results
Nothing == [v |-> "bad", nr |-> 0, costs |-> <<>>, cols |-> <<>>, hasinit |-> FALSE, init |-> <<>>]
Skip == [Nothing EXCEPT !.v = "skip"]
Got(nr, costs, cols) == [v |-> "ok", nr |-> nr, costs |-> TLCEval([j \in DOMAIN costs |-> TLCEval(costs[j])]), cols |-> TLCEval([j \in DOMAIN cols |-> TLCEval(cols[j])]), hasinit |-> FALSE, init |-> <<>>]
Lenient(w) == IF w.v = "ok" THEN [w EXCEPT !.v = "any"] ELSE w
Set(s) == {s[i] : i \in DOMAIN s}
Dups(s) == Cardinality(Set(s)) # Len(s)
CoveredRows(cols, J) == UNION {Set(cols[j + 1]) : j \in J}
AllRows(w) == 0 .. w.nr - 1
\* an instance needs every row in some column, and no row twice in one; negative costs are outside the problem
Checked(w) ==
    IF w.v \notin {"ok", "any"} THEN w
    ELSE IF (\E j \in DOMAIN w.cols : Dups(w.cols[j])) \/ CoveredRows(w.cols, 0 .. Len(w.cols) - 1) # AllRows(w) THEN Nothing
    ELSE IF (\E j \in DOMAIN w.costs : w.costs[j].neg) \/ w.nr = 0 THEN Lenient(w) ELSE w
ValidInit(w, s) == ~Dups(s) /\ Set(s) \subseteq 0 .. Len(w.cols) - 1 /\ CoveredRows(w.cols, Set(s)) = AllRows(w)
Header(L) == IF L = <<>> \/ Len(L[1]) # 2 THEN [ok |-> FALSE, nr |-> 0, nc |-> 0]
             ELSE LET a == RIdx(L[1][1])
                      b == CIdx(L[1][2])
                  IN [ok |-> a.ok /\ b.ok /\ a.v >= 0 /\ b.v >= 0, nr |-> a.v, nc |-> b.v]

(***************************************************************************)
(* RAIL: rows and columns; then one line per column: cost, number of rows, *)
(* the rows from 1.                                                        *)
(***************************************************************************)
RailCol(t, nr) ==
    LET c == RealTok(t[1])
        k == RIdx(t[2])
        rs == [i \in 1 .. Len(t) - 2 |-> RIdx(t[i + 2])]
    IN IF Len(t) < 2 THEN [ok |-> FALSE, c |-> ZeroCost, r |-> <<>>]
       ELSE [ok |-> c.ok /\ k.ok /\ k.v = Len(t) - 2 /\ \A i \in DOMAIN rs : rs[i].ok /\ rs[i].v \in 1 .. nr, c |-> c, r |-> [i \in DOMAIN rs |-> rs[i].v - 1]]
Rail(L) ==
    LET h == Header(L)
        B == TLCEval([j \in 1 .. Len(L) - 1 |-> TLCEval(RailCol(L[j + 1], h.nr))])
    IN IF ~h.ok \/ Len(L) - 1 # h.nc \/ \E j \in DOMAIN B : ~B[j].ok THEN Nothing
       ELSE Got(h.nr, [j \in DOMAIN B |-> B[j].c], [j \in DOMAIN B |-> B[j].r])

(***************************************************************************)
(* SCP: rows and columns; the costs, over any number of lines; then per    *)
(* row a line with the number of columns and these, from 1, over any       *)
(* number of lines.                                                        *)
(***************************************************************************)
RECURSIVE Take(_, _, _, _)
Take(L, i, n, acc) ==           \* n words over whole lines from line i on; at: first line after them, 0 if there are no such lines
    IF n = 0 THEN [at |-> i, w |-> acc]
    ELSE IF i > Len(L) \/ Len(L[i]) = 0 \/ Len(L[i]) > n THEN [at |-> 0, w |-> <<>>]
    ELSE Take(L, i + 1, n - Len(L[i]), acc \o L[i])
RECURSIVE ScpRows(_, _, _, _, _)
ScpRows(L, i, nr, nc, acc) ==   \* acc: the rows so far, each as set of columns; ok at the end only
    IF nr = 0 THEN [ok |-> i = Len(L) + 1, rows |-> acc]
    ELSE LET k == CIdx(L[i][1])
             T == Take(L, i + 1, k.v, <<>>)
             js == [q \in DOMAIN T.w |-> CIdx(T.w[q])]
         IN IF i > Len(L) \/ Len(L[i]) # 1 THEN [ok |-> FALSE, rows |-> <<>>]
            ELSE IF ~k.ok \/ k.v < 0 THEN [ok |-> FALSE, rows |-> <<>>]
            ELSE IF T.at = 0 THEN [ok |-> FALSE, rows |-> <<>>]
            ELSE IF (\E q \in DOMAIN js : ~(js[q].ok /\ js[q].v \in 1 .. nc)) \/ Cardinality({js[q].v : q \in DOMAIN js}) # Len(js) THEN [ok |-> FALSE, rows |-> <<>>]
            ELSE ScpRows(L, T.at, nr - 1, nc, Append(acc, [q \in DOMAIN js |-> js[q].v]))
ColsOfRows(rows, nc) ==
    LET S == TLCEval([i \in DOMAIN rows |-> Set(rows[i])])
    IN [j \in 1 .. nc |-> LET P == Places(S, LAMBDA i : j \in S[i]) IN [q \in DOMAIN P |-> P[q] - 1]]
Scp(L) ==
    LET h == Header(L)
        C == Take(L, 2, h.nc, <<>>)
        cs == [j \in DOMAIN C.w |-> RealTok(C.w[j])]
        rs == ScpRows(L, C.at, h.nr, h.nc, <<>>)
    IN IF ~h.ok THEN Nothing
       ELSE IF C.at = 0 THEN Nothing
       ELSE IF \E j \in DOMAIN cs : ~cs[j].ok THEN Nothing
       ELSE IF ~rs.ok THEN Nothing
       ELSE Got(h.nr, cs, ColsOfRows(rs.rows, h.nc))
\* read as a mere sequence of words, whatever the lines
Words(L) == FoldLeft(LAMBDA a, t : a \o t, <<>>, IF L = <<>> THEN <<>> ELSE Tail(L))
RECURSIVE Chop(_, _)
Chop(W, nr) == IF nr = 0 \/ W = <<>> THEN (IF W = <<>> THEN <<>> ELSE <<W>>)
               ELSE LET k == CIdx(W[1])
                    IN IF ~k.ok \/ k.v < 0 \/ k.v > Len(W) - 1 THEN <<W>>
                       ELSE <<Upto(W, 1)>> \o (IF k.v = 0 THEN <<>> ELSE <<SubSeq(W, 2, 1 + k.v)>>) \o Chop(From(W, 2 + k.v), nr - 1)
ScpWords(L) == LET h == Header(L)
                   W == Words(L)
               IN IF ~h.ok \/ h.nc > Len(W) THEN Nothing ELSE Scp(<<L[1]>> \o (IF h.nc = 0 THEN <<>> ELSE <<Upto(W, h.nc)>>) \o Chop(From(W, h.nc + 1), h.nr))

(***************************************************************************)
(* CVRP: rows and columns; per column a line: cost, cost in the solution   *)
(* (not smaller), the rows from 0; at last a line with the columns of an   *)
(* initial solution.                                                       *)
(***************************************************************************)
CvrpCol(t, nr) ==
    LET c == RealTok(t[1])
        s == RealTok(t[2])
        rs == [i \in 1 .. Len(t) - 2 |-> RIdx(t[i + 2])]
    IN IF Len(t) < 2 THEN [ok |-> FALSE, c |-> ZeroCost, r |-> <<>>, tie |-> FALSE]
       ELSE [ok |-> c.ok /\ s.ok /\ (LeqTok(c, Raised(s)) \/ c.neg \/ s.neg) /\ \A i \in DOMAIN rs : rs[i].ok /\ rs[i].v \in 0 .. nr - 1, c |-> [c EXCEPT !.neg = c.neg \/ s.neg], r |-> [i \in DOMAIN rs |-> rs[i].v], tie |-> ~LeqTok(c, s)]
Cvrp(L, hasw) ==
    LET h == Header(L)
        n == Len(L) - 1
        B == TLCEval([j \in 1 .. (IF n < h.nc THEN n ELSE h.nc) |-> TLCEval(CvrpCol(L[j + 1], h.nr))])
        s == IF n > h.nc THEN [i \in DOMAIN L[h.nc + 2] |-> CIdx(L[h.nc + 2][i])] ELSE <<>>
        w == Got(h.nr, [j \in DOMAIN B |-> B[j].c], [j \in DOMAIN B |-> B[j].r])
        init == [i \in DOMAIN s |-> s[i].v]
    IN IF ~h.ok \/ n < h.nc \/ n > h.nc + 1 THEN Nothing
       ELSE IF (\E j \in DOMAIN B : ~B[j].ok) \/ (\E i \in DOMAIN s : ~(s[i].ok /\ s[i].v \in 0 .. h.nc - 1)) THEN Nothing
       ELSE IF n = h.nc THEN Lenient(w)                                  \* no initial solution
       ELSE IF ~ValidInit(w, init) THEN (IF hasw THEN Lenient(w) ELSE Nothing)
       ELSE IF \E j \in DOMAIN B : B[j].tie THEN Lenient([w EXCEPT !.hasinit = TRUE, !.init = init])
       ELSE [w EXCEPT !.hasinit = TRUE, !.init = init]

(***************************************************************************)
(* MPS: up to ten lines of any kind, ROWS with one objective and one row   *)
(* per line, COLUMNS with the non-zero coefficients of each column (ones,  *)
(* but in the objective), RHS and what follows it, which is not looked at. *)
(***************************************************************************)
kROWS == <<82, 79, 87, 83>>
kCOLUMNS == <<67, 79, 76, 85, 77, 78, 83>>
kRHS == <<82, 72, 83>>
kMARKER == <<39, 77, 65, 82, 75, 69, 82, 39>>
kN == <<78>>
Star == 42
At(L, i, k) == LET I == {q \in i .. Len(L) : L[q] = <<k>>} IN IF I = {} THEN 0 ELSE SMin(I)
Comment(t) == t # <<>> /\ t[1][1] = Star
RowType(t) == t[1] \in {<<71>>, <<69>>, <<76>>}
MpsCols(CL, obj, rows) ==       \* fold over the lines of the section
    LET Val(t, i) == RealTok(t[i + 1])
        step(a, t) ==
            LET P == {i \in 2 .. Len(t) - 1 : i % 2 = 0}
                new == a.prev # <<t[1]>>
                n == Len(a.cols) + (IF new THEN 1 ELSE 0)
                rs == SelectSeq([q \in 1 .. Len(t) \div 2 |-> t[2 * q]], LAMBDA x : x # obj)
                o == {i \in P : t[i] = obj}
                Row(x) == (CHOOSE q \in DOMAIN rows : rows[q] = x) - 1
            IN IF a.v = "bad" \/ t = <<>> \/ Comment(t) \/ (Len(t) = 3 /\ t[2] = kMARKER) THEN a
               ELSE IF Len(t) < 3 \/ Len(t) % 2 = 0 THEN [a EXCEPT !.v = "bad"]
               ELSE IF \E i \in P : ~Val(t, i).ok \/ (t[i] # obj /\ t[i] \notin Set(rows)) \/ (t[i] # obj /\ ~IsOne(Val(t, i))) THEN [a EXCEPT !.v = "bad"]
               ELSE [v |-> IF a.v = "skip" \/ (new /\ t[1] \in Set(a.names)) \/ Cardinality(o) > 1 \/ (~new /\ o # {} /\ a.hasc) THEN "skip"
                           ELSE IF \E i \in P : t[i] # obj /\ Val(t, i).neg THEN "any" ELSE a.v,
                     prev |-> <<t[1]>>, names |-> IF new THEN Append(a.names, t[1]) ELSE a.names,
                     hasc |-> (~new /\ a.hasc) \/ o # {},
                     cols |-> LET r == [q \in DOMAIN rs |-> Row(rs[q])] IN IF new THEN Append(a.cols, r) ELSE [a.cols EXCEPT ![n] = @ \o r],
                     costs |-> LET c == IF o = {} THEN ZeroCost ELSE Val(t, SMin(o)) IN IF new THEN Append(a.costs, c) ELSE IF o = {} THEN a.costs ELSE [a.costs EXCEPT ![n] = c]]
    IN FoldLeft(step, [v |-> "ok", prev |-> <<>>, names |-> <<>>, hasc |-> FALSE, cols |-> <<>>, costs |-> <<>>], CL)
Mps(L) ==
    LET r == At(L, 1, kROWS)
        c == At(L, r + 1, kCOLUMNS)
        e == At(L, c + 1, kRHS)
        RL == SelectSeq(SubSeq(L, r + 1, c - 1), LAMBDA t : t # <<>> /\ ~Comment(t))
        objs == SelectSeq(RL, LAMBDA t : t[1] = kN)
        rows == SelectSeq(RL, LAMBDA t : t[1] # kN)
        names == TLCEval([q \in DOMAIN rows |-> rows[q][2]])
        C == MpsCols(SubSeq(L, c + 1, e - 1), objs[1][2], names)
        v == IF (\E i \in 1 .. e : L[i] = <<>>) \/ \E q \in DOMAIN rows : rows[q][1] # <<71>> THEN "any" ELSE "ok"
    IN IF r = 0 \/ c = 0 \/ e = 0 THEN Nothing
       ELSE IF r > 11 \/ \E i \in DOMAIN RL : RL[i] = <<kROWS>> THEN Skip
       ELSE IF \E i \in DOMAIN RL : Len(RL[i]) < 2 \/ (RL[i][1] # kN /\ ~RowType(RL[i])) THEN Nothing
       ELSE IF Len(objs) # 1 \/ Dups(names) \/ (\E i \in DOMAIN RL : Len(RL[i]) > 2) THEN Skip
       ELSE IF objs[1][2] \in Set(names) THEN Skip
       ELSE IF ~(Fits(Len(rows), RHi) /\ Fits(Len(C.cols), CHi)) THEN Nothing     \* more than the index types can number
       ELSE IF C.v \in {"bad", "skip"} THEN [Nothing EXCEPT !.v = C.v]
       ELSE LET w == Got(Len(rows), C.costs, C.cols) IN IF C.v = "any" \/ v = "any" THEN Lenient(w) ELSE w

(***************************************************************************)
(* A solution: one line with its cost and its columns.                     *)
(***************************************************************************)
Sol(L) ==
    LET c == RealTok(L[1][1])
        js == [i \in 1 .. Len(L[1]) - 1 |-> CIdx(L[1][i + 1])]
    IN IF L = <<>> THEN [v |-> "bad", sol |-> <<>>]
       ELSE IF L[1] = <<>> THEN [v |-> "bad", sol |-> <<>>]
       ELSE IF ~c.ok \/ \E i \in DOMAIN js : ~js[i].ok THEN [v |-> "bad", sol |-> <<>>]
       ELSE [v |-> IF Len(NonBlank(L)) > 1 THEN "skip" ELSE "ok", sol |-> [i \in DOMAIN js |-> js[i].v]]

Read(fmt, txt, hasw) ==
    LET L == TokLines(txt)
        B == NonBlank(L)
        strict == CASE fmt = "RAIL" -> Rail(B) [] fmt = "SCP" -> Scp(B) [] fmt = "CVRP" -> Cvrp(B, hasw) [] fmt = "MPS" -> Mps(L)
        w == IF fmt = "SCP" /\ strict.v = "bad" THEN Lenient(ScpWords(B)) ELSE strict
    IN Checked(IF fmt # "MPS" /\ InnerBlank(L) THEN Lenient(w) ELSE w)
\* with a separate initial solution, which takes the place of the one in the file
WithInit(w, wtxt) ==
    LET s == Sol(TokLines(wtxt))
    IN IF w.v \in {"bad", "skip"} THEN w
       ELSE IF s.v = "bad" THEN Nothing
       ELSE IF ~ValidInit(w, s.sol) THEN (IF s.v = "skip" THEN Skip ELSE Nothing)
       ELSE IF s.v = "skip" THEN Skip
       ELSE [w EXCEPT !.hasinit = TRUE, !.init = s.sol]
=============================================================================
