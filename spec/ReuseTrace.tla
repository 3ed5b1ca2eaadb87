----------------------------- MODULE ReuseTrace -----------------------------
EXTENDS Reuse, TraceLoop
TInit == LoopInit /\ ReuseInit
tCall == Is("call") /\ Call(E.o, E.x, E.r, E.kept)
TraceSpec == TInit /\ [][tCall]_<<rvars, t, l>>
=============================================================================
