---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions of the Python solver against Session.  Every event has the call, whether it
   raised, and what the queries of both solvers return afterwards. *)
EXTENDS Session, TraceLoop
VARIABLE seen          \* what the queries returned after the previous call
Sc == 4                \* costs are recorded times four
Set(s) == {s[i] : i \in DOMAIN s}
Q(e, w) == e.st[w + 1]
Empty == [has |-> FALSE, sol |-> <<>>, cost |-> 0, lb |-> 0, nm |-> -1, mbad |-> FALSE, same |-> TRUE]
TInit == LoopInit /\ SInit /\ seen = [w \in Ids |-> Empty]
\* what the queries return agrees with what the solver knows
Shows(w) == LET q == Q(E, w) IN
    /\ q.same                                 \* asking twice gives the same
    /\ q.has = res'[w].has
    /\ q.has => q.sol = res'[w].sol /\ q.cost = res'[w].cost
    /\ ~q.has => q = Empty
    /\ seen' = [x \in Ids |-> Q(E, x)]
\* solvers that are not called, and those whose call is rejected, show what they showed before
Others(w) == \A v \in Ids \ {w} : Q(E, v) = seen[v]
tAdd == /\ Is("add") /\ E.kind = "plain" /\ E.ok
        /\ Add(E.w, Set(E.els), E.cost)
        /\ E.ret = AddIndex(E.w)
        /\ Shows(E.w) /\ Others(E.w)
        /\ res'[E.w].has => Q(E, E.w) = seen[E.w]
tRefused == /\ Is("add") /\ ~E.ok
            /\ E.kind = "plain" => ~Acceptable(Set(E.els), E.cost)
            /\ Keep(E.w) /\ Shows(E.w) /\ Others(E.w) /\ Q(E, E.w) = seen[E.w]
tSolve == /\ Is("solve") /\ E.ok /\ E.kind = "plain"
          /\ LET q == Q(E, E.w)
                 I == InstOf(sets[E.w]) IN
             /\ sets[E.w] # <<>>
             /\ q.has
             /\ Solve(E.w, q.sol, q.cost)
             /\ I.nr <= 9 => Leq(q.lb, Opt(I), Len(q.sol) + 1)
             /\ Leq(q.lb, q.cost, Len(q.sol) + 1)
             /\ q.nm = I.nr /\ ~q.mbad
          /\ Shows(E.w) /\ Others(E.w)
\* nothing to cover: only that the session goes on is asked for
tSolveEmpty == /\ Is("solve") /\ E.kind = "plain" /\ sets[E.w] = <<>>
               /\ LET q == Q(E, E.w) IN res' = [res EXCEPT ![E.w] = IF q.has THEN [has |-> TRUE, sol |-> q.sol, cost |-> q.cost] ELSE NoRes]
               /\ UNCHANGED sets /\ Q(E, E.w).sol = <<>>
               /\ Shows(E.w) /\ Others(E.w)
tSolveRefused == /\ Is("solve") /\ ~E.ok
                 /\ E.kind = "plain" => ~Complete(sets[E.w])
                 /\ Keep(E.w) /\ Shows(E.w) /\ Others(E.w) /\ Q(E, E.w) = seen[E.w]
tLoad == /\ Is("file") /\ E.ok /\ E.kind = "plain"
         /\ Load(E.w, [j \in DOMAIN E.cols |-> [els |-> Set(E.cols[j]), cost |-> E.costs[j]]], E.sol)
         /\ Shows(E.w) /\ Others(E.w)
tLoadRefused == /\ Is("file") /\ ~E.ok /\ E.kind = "bad"
                /\ Keep(E.w) /\ Shows(E.w) /\ Others(E.w) /\ Q(E, E.w) = seen[E.w]
TraceSpec == TInit /\ [][tAdd \/ tRefused \/ tSolve \/ tSolveEmpty \/ tSolveRefused \/ tLoad \/ tLoadRefused]_<<svars, seen, t, l>>
TKnown == \A w \in Ids : (res[w].has /\ sets[w] # <<>>) => IsCover(InstOf(sets[w]), res[w].sol)
=============================================================================
