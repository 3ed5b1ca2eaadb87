------------------------------- MODULE ReuseMC -------------------------------
(* The design of the procedure objects: each has a cache of its own with whatever its earlier calls
   left there; a call first rebuilds the cache from its input and then computes from the cache.  Calls
   of different objects may overlap.  Such objects implement Reuse.  With a cache shared between the
   objects (Shared) or not rebuilt when it has the right size already (Lazy) they do not: both are
   checked to be rejected. *)
EXTENDS Reuse
CONSTANTS Objs, Inputs, Shared, Lazy, MaxCalls
VARIABLES cache, pc, arg, n
mcvars == <<memo, last, cache, pc, arg, n>>
F(x) == x * x                             \* the function computed
Size(x) == IF x = 1 THEN 1 ELSE 2         \* inputs 2 and 3 need caches of the same size
Slot(o) == IF Shared THEN 1 ELSE o
Stale == 0
MCInit == ReuseInit /\ cache = [o \in Objs |-> Stale] /\ pc = [o \in Objs |-> "idle"] /\ arg = [o \in Objs |-> 0] /\ n = 0
Start(o) == /\ pc[o] = "idle" /\ n < MaxCalls /\ n' = n + 1
            /\ \E x \in Inputs : /\ arg' = [arg EXCEPT ![o] = x]
                                 /\ cache' = IF Lazy /\ cache[Slot(o)] # Stale /\ Size(cache[Slot(o)]) = Size(x) THEN cache ELSE [cache EXCEPT ![Slot(o)] = x]
            /\ pc' = [pc EXCEPT ![o] = "busy"] /\ UNCHANGED rvars
Finish(o) == /\ pc[o] = "busy" /\ pc' = [pc EXCEPT ![o] = "idle"]
             /\ memo' = IF Known(arg[o]) THEN memo ELSE (arg[o] :> F(cache[Slot(o)])) @@ memo
             /\ last' = (o :> arg[o]) @@ last
             /\ UNCHANGED <<cache, arg, n>>
MCNext == \E o \in Objs : Start(o) \/ Finish(o)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* every completed call is a call of Reuse with the right result
Refines == [][\A o \in Objs : pc[o] = "busy" /\ pc'[o] = "idle" => Call(o, arg[o], F(cache[Slot(o)]), TRUE) /\ F(cache[Slot(o)]) = F(arg[o])]_mcvars
=============================================================================
