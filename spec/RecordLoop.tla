----------------------------- MODULE RecordLoop -----------------------------
(***************************************************************************)
(* Walks the records of a recorded file in 64 parallel chains; modules     *)
(* that judge single observations state their relations as invariants over *)
(* the current record R.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
NW == 64
VARIABLE k
Init == k \in 1 .. (IF Len(Recs) < NW THEN Len(Recs) ELSE NW)
Next == k + NW <= Len(Recs) /\ k' = k + NW
Spec == Init /\ [][Next]_k
R == Recs[k]
=============================================================================
