------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The Python solver under any sequence of calls: a solver holds the sets  *)
(* added so far and what it knows of a solution.  Solvers are independent. *)
(***************************************************************************)
EXTENDS SetCover
CONSTANT Ids
VARIABLES sets,      \* per solver: sequence of [els, cost], els a set of elements
          res        \* per solver: None or [sol, cost]
svars == <<sets, res>>
NoRes == [has |-> FALSE, sol |-> <<>>, cost |-> 0]
MaxEl(ss) == MaxOf({-1} \cup UNION {ss[i].els : i \in DOMAIN ss})
Elements(ss) == UNION {ss[i].els : i \in DOMAIN ss}
Complete(ss) == Elements(ss) = 0 .. MaxEl(ss)
\* the instance the sets make
InstOf(ss) == [nr |-> MaxEl(ss) + 1, cols |-> [i \in DOMAIN ss |-> SetToSortSeq(ss[i].els, <)], costs |-> [i \in DOMAIN ss |-> ss[i].cost]]
SInit == sets = [w \in Ids |-> <<>>] /\ res = [w \in Ids |-> NoRes]

\* a set is accepted when it is not empty, its elements and its cost are not negative
Acceptable(els, cost) == els # {} /\ cost >= 0 /\ \A e \in els : e >= 0
Add(w, els, cost) ==
    /\ Acceptable(els, cost)
    /\ sets' = [sets EXCEPT ![w] = Append(@, [els |-> els, cost |-> cost])]
    /\ res' = [res EXCEPT ![w] = IF MaxOf(els) > MaxEl(sets[w]) THEN NoRes ELSE @]
AddIndex(w) == Len(sets[w])
\* what a solve may return: a cover with its cost, not worse than the one known
MayReturn(w, s, c) ==
    /\ IsCover(InstOf(sets[w]), s)
    /\ c = CostOf(InstOf(sets[w]), s)
    /\ res[w].has => c <= res[w].cost
Solve(w, s, c) ==
    /\ Complete(sets[w])
    /\ MayReturn(w, s, c)
    /\ res' = [res EXCEPT ![w] = [has |-> TRUE, sol |-> s, cost |-> c]]
    /\ UNCHANGED sets
\* a file replaces everything; it may bring a solution
Load(w, ss, s) ==
    /\ sets' = [sets EXCEPT ![w] = ss]
    /\ res' = [res EXCEPT ![w] = IF s = <<>> THEN NoRes ELSE [has |-> TRUE, sol |-> s, cost |-> CostOf(InstOf(ss), s)]]
\* a rejected call, a query
Keep(w) == UNCHANGED svars

\* what these steps are meant to guarantee
KnownIsCover == \A w \in Ids : res[w].has => IsCover(InstOf(sets[w]), res[w].sol) /\ res[w].cost = CostOf(InstOf(sets[w]), res[w].sol)
Grown(w) == Len(sets'[w]) >= Len(sets[w]) /\ SubSeq(sets'[w], 1, Len(sets[w])) = sets[w]
Monotone == [][\A w \in Ids : (Grown(w) /\ sets[w] # <<>> /\ res[w].has /\ res'[w].has) => res'[w].cost <= res[w].cost]_svars
Forgets == [][\A w \in Ids : (Grown(w) /\ sets'[w] # sets[w] /\ sets[w] # <<>>) => res'[w] = IF Elements(sets'[w]) = Elements(sets[w]) THEN res[w] ELSE NoRes]_svars
Alone == [][\E w \in Ids : \A v \in Ids \ {w} : sets'[v] = sets[v] /\ res'[v] = res[v]]_svars
=============================================================================
