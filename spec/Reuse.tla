-------------------------------- MODULE Reuse --------------------------------
(***************************************************************************)
(* Procedure objects (3-phase, subgradient, greedy, pricing, column        *)
(* fixing) keep caches between calls.  Seen from outside they are plain    *)
(* functions: the result of a call depends on what the call was given and  *)
(* on nothing else -- not on the object used, on its earlier calls or on   *)
(* calls other threads make with other objects -- and what was given as an *)
(* input is the same afterwards.                                           *)
(*                                                                         *)
(* memo is the part of that function known so far, last what each object   *)
(* worked on before (any relation between last and the result is a bug).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES memo, last
rvars == <<memo, last>>
Known(x) == x \in DOMAIN memo
ReuseInit == memo = <<>> /\ last = <<>>
\* object o is called with input x and gives result r; kept: the inputs are unchanged
Call(o, x, r, kept) ==
    /\ kept
    /\ Known(x) => memo[x] = r
    /\ memo' = (x :> r) @@ memo
    /\ last' = (o :> x) @@ last
=============================================================================
