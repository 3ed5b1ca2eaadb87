---------------------------- MODULE InstBuildTrace ----------------------------
EXTENDS InstBuild, TraceLoop
TInit == LoopInit /\ objs = <<Empty, Empty, Empty>>
\* what the program shows of every object after each step
Shown == \A o \in DOMAIN objs' : LET s == E.objs[o] IN s.cols = objs'[o].cols /\ s.costs = objs'[o].costs /\ s.rows = objs'[o].rows
                                   /\ s.size = Len(objs'[o].cols) /\ s.empty = (objs'[o].cols = <<>>)
tApp == Is("append") /\ Append0(E.o, E.col, E.cost) /\ Shown
tCopy == Is("copy") /\ CopyCol(E.from, E.j, E.o) /\ Shown
tClear == Is("clear") /\ Clear(E.o) /\ Shown
tAssign == Is("assign") /\ Assign(E.from, E.o) /\ Shown
tFill == Is("fill") /\ Fill(E.o, E.nr) /\ Shown /\ (E.simple => Transposed(objs'[E.o], E.nr))
TraceSpec == TInit /\ [][tApp \/ tCopy \/ tClear \/ tAssign \/ tFill]_<<objs, t, l>>
=============================================================================
