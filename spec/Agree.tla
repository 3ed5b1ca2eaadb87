-------------------------------- MODULE Agree --------------------------------
(***************************************************************************)
(* The result is a function of the inputs: a record holds the results of   *)
(* several executions that have the same instance, parameters and seed and *)
(* differ only in things that must not matter (repetition, process, what   *)
(* was solved before, interface, verbosity, a limit never reached, index   *)
(* types, reused objects).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
NW == 64
VARIABLE k
Init == k \in 1 .. NW
Next == k + NW <= Len(Recs) /\ k' = k + NW
Spec == Init /\ [][Next]_k
R == Recs[k]
Here == k <= Len(Recs)

\* results of different seeds, each over many instances: no two seeds act as the same one
AllDiffer == Here => \A a, b \in DOMAIN R.rs : a # b => R.rs[a] # R.rs[b]
SameAll == Here => \A a \in DOMAIN R.rs : R.rs[a] = R.rs[1]
=============================================================================
