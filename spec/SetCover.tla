------------------------------ MODULE SetCover ------------------------------
(***************************************************************************)
(* The problem c4v4/cft solves, as pure operators shared by all modules.   *)
(*                                                                         *)
(* An instance is a record [nr, cols, costs]: nr rows 0..nr-1, cols is a   *)
(* sequence of sequences of rows (column j is cols[j+1]), costs a sequence *)
(* of integers.  Costs of the real code are floats: traces carry them      *)
(* scaled to integers, comparisons then use the tolerance Tol.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* the sum of f[x+1] over the elements x of the sequence s
SumAt(f, s) == FoldLeft(LAMBDA a, x : a + f[x + 1], 0, s)
SumOver(f, S) == FoldLeft(LAMBDA a, x : a + f[x + 1], 0, SetToSeq(S))

Range0(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range0(s)) = Len(s)

NC(inst) == Len(inst.cols)
Rows(inst) == 0 .. inst.nr - 1
Cols(inst) == 0 .. NC(inst) - 1
ColSet(inst, j) == Range0(inst.cols[j + 1])
CoveredBy(inst, S) == UNION {ColSet(inst, j) : j \in S}

WellFormed(inst) ==
    /\ Len(inst.costs) = Len(inst.cols)
    /\ \A j \in Cols(inst) : ColSet(inst, j) \subseteq Rows(inst) /\ NoDup(inst.cols[j + 1])

Feasible(inst) == CoveredBy(inst, Cols(inst)) = Rows(inst)
ValidSel(inst, sel) == NoDup(sel) /\ Range0(sel) \subseteq Cols(inst)
IsCover(inst, sel) == ValidSel(inst, sel) /\ CoveredBy(inst, Range0(sel)) = Rows(inst)
CostOf(inst, sel) == SumAt(inst.costs, sel)

\* the row view: row i lists the columns containing it, in increasing order
IsTranspose(inst, rows) ==
    /\ Len(rows) = inst.nr
    /\ \A i \in Rows(inst) :
          rows[i + 1] = SetToSortSeq({j \in Cols(inst) : i \in ColSet(inst, j)}, <)

\* the optimum: branch on the lowest uncovered row.  Infeasible rows give INF.
INF == 1000000000
RECURSIVE OptOf(_, _)
OptOf(inst, U) ==
    IF U = {} THEN 0
    ELSE LET r == MinOf(U)
             J == {j \in Cols(inst) : r \in ColSet(inst, j)}
         IN  IF J = {} THEN INF
             ELSE MinOf({LET o == OptOf(inst, U \ ColSet(inst, j))
                         IN IF o = INF THEN INF ELSE inst.costs[j + 1] + o : j \in J})
Opt(inst) == OptOf(inst, Rows(inst))

\* Lagrangian relaxation for multipliers u
RedCost(inst, u, j) == inst.costs[j + 1] - SumAt(u, inst.cols[j + 1])
LagBound(inst, u) ==
    SumSeq(u) + FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1 .. NC(inst) |-> Min2(0, RedCost(inst, u, j - 1))])

(***************************************************************************)
(* Fixing a set F of columns                                               *)
(***************************************************************************)
KeptRows(inst, F) == Rows(inst) \ CoveredBy(inst, F)
KeptCols(inst, F) == {j \in Cols(inst) \ F : ColSet(inst, j) \cap KeptRows(inst, F) # {}}
RowMap(inst, F) == SetToSortSeq(KeptRows(inst, F), <)
ColMap(inst, F) == SetToSortSeq(KeptCols(inst, F), <)
Residual(inst, F) ==
    LET rm == RowMap(inst, F)
        cm == ColMap(inst, F)
        new == [r \in Range0(rm) |-> (CHOOSE i \in DOMAIN rm : rm[i] = r) - 1]
        kept == Range0(rm)
        \* the rows of a column keep their relative order
        newcol(j) == LET c == SelectSeq(inst.cols[j + 1], LAMBDA r : r \in kept)
                     IN [i \in DOMAIN c |-> new[c[i]]]
    IN [nr |-> Len(rm), cols |-> [i \in DOMAIN cm |-> newcol(cm[i])],
        costs |-> [i \in DOMAIN cm |-> inst.costs[cm[i] + 1]]]
Compose(m, s) == [i \in DOMAIN s |-> m[s[i] + 1]]
Identity(n) == [i \in 1 .. n |-> i - 1]

(***************************************************************************)
(* Comparisons of scaled reals.  n bounds the number of rounded terms.     *)
(***************************************************************************)
Tol(n, x) == n + 1 + (Abs(x) \div 131072)
Near(a, b, n) == Abs(a - b) <= Tol(n, b)
Leq(a, b, n) == a <= b + Tol(n, b)
=============================================================================
