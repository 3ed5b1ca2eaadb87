------------------------------ MODULE TraceLoop ------------------------------
(***************************************************************************)
(* Common part of the modules that accept recorded histories: Traces[t].ev *)
(* is the history, l the next event.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev
E == Ev[l]
More == l <= Len(Ev)
Is(name) == More /\ E.e = name /\ l' = l + 1 /\ t' = t
LoopInit == t \in 1 .. Len(Traces) /\ l = 1
\* printed once a history has been consumed completely
Accepted == l = Len(Ev) + 1 => PrintT("@@" \o ToString(t))
\* used to locate the first event of a rejected history
Progress == PrintT("@@" \o ToString(l))
=============================================================================
