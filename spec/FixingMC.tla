------------------------------ MODULE FixingMC ------------------------------
(* All instances with NR rows and up to MaxCols columns, all sequences of fixings. *)
EXTENDS Fixing
CONSTANTS NR, MaxCols, MaxSel
ColSeqs == {SetToSortSeq(S, <) : S \in SUBSET (0 .. NR - 1)}
MCInit == \E n \in 1 .. MaxCols : \E c \in [1 .. n -> ColSeqs] : Init0([nr |-> NR, cols |-> c, costs |-> [j \in 1 .. n |-> 2 ^ (j - 1)]])
MCNext == \E S \in SUBSET Cols(fr.inst) : S # {} /\ Cardinality(S) <= MaxSel
             /\ \E sel \in {SetToSortSeq(S, <), SetToSortSeq(S, >)} : Fix(sel)
MCSpec == MCInit /\ [][MCNext]_fvars
=============================================================================
