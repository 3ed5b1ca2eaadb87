------------------------------ MODULE InstBuild ------------------------------
(***************************************************************************)
(* Building instances: a few instance objects, changed by appending and    *)
(* copying columns, clearing, and filling rows from columns.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE objs      \* sequence of [cols, costs, rows, fresh]; fresh: the row view is up to date with the columns
Empty == [cols |-> <<>>, costs |-> <<>>, rows |-> <<>>]
Set0(o, x) == objs' = [objs EXCEPT ![o] = x]
Append0(o, col, cost) == Set0(o, [objs[o] EXCEPT !.cols = Append(@, col), !.costs = Append(@, cost)])
CopyCol(from, j, to) == from # to /\ j \in 0 .. Len(objs[from].cols) - 1
                        /\ Set0(to, [objs[to] EXCEPT !.cols = Append(@, objs[from].cols[j + 1]), !.costs = Append(@, objs[from].costs[j + 1])])
Clear(o) == Set0(o, Empty)
Assign(from, to) == Set0(to, objs[from])
\* the columns of row i, in increasing order
RECURSIVE RowOf(_, _, _)
RowOf(cols, i, j) == IF j > Len(cols) THEN <<>> ELSE [k \in 1 .. Cardinality({q \in DOMAIN cols[j] : cols[j][q] = i}) |-> j - 1] \o RowOf(cols, i, j + 1)
RowsOf(cols, nr) == [i \in 1 .. nr |-> RowOf(cols, i - 1, 1)]
Fill(o, nr) == Set0(o, [objs[o] EXCEPT !.rows = RowsOf(objs[o].cols, nr)])
\* the row view is the transpose of the column view (columns without repetitions)
Transposed(x, nr) == /\ Len(x.rows) = nr
                     /\ \A i \in 1 .. nr, j \in 1 .. Len(x.cols) :
                          (\E q \in DOMAIN x.cols[j] : x.cols[j][q] = i - 1) <=> (\E q \in DOMAIN x.rows[i] : x.rows[i][q] = j - 1)
                     /\ \A i \in 1 .. nr : \A p, q \in DOMAIN x.rows[i] : p < q => x.rows[i][p] < x.rows[i][q]
                     /\ \A i \in 1 .. nr : \A p \in DOMAIN x.rows[i] : x.rows[i][p] \in 0 .. Len(x.cols) - 1
=============================================================================
