----------------------------- MODULE InstBuildMC -----------------------------
EXTENDS InstBuild, TLC
CONSTANTS NR, MaxOps
VARIABLES n, last
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOf(S \ {x})
MCInit == objs = <<Empty, Empty>> /\ n = 0 /\ last = 0
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \/ \E o \in 1 .. 2, S \in SUBSET (0 .. NR - 1) : Append0(o, SeqOf(S), n) /\ last' = 0
             \/ \E o \in 1 .. 2, j \in 0 .. 2 : CopyCol(o, j, 3 - o) /\ last' = 0
             \/ \E o \in 1 .. 2 : Clear(o) /\ last' = 0
             \/ \E o \in 1 .. 2 : Fill(o, NR) /\ last' = o
             \/ Assign(1, 2) /\ last' = 0
MCSpec == MCInit /\ [][MCNext]_<<objs, n, last>>
Consistent == last # 0 => Transposed(objs[last], NR)
Aligned == \A o \in 1 .. 2 : Len(objs[o].cols) = Len(objs[o].costs)
=============================================================================
