----------------------------- MODULE FixingTrace -----------------------------
EXTENDS Fixing, TraceLoop
InstOf(e) == [nr |-> e.nr, cols |-> e.cols, costs |-> e.costs]
\* the sum of floats may be rounded
Same(e, f) == /\ InstOf(e) = f.inst /\ e.fixed = f.fixed /\ e.cmap = f.cmap /\ e.rmap = f.rmap
              /\ Near(e.fcost, f.fcost, IF Traces[t].exact THEN 0 ELSE Len(f.fixed))
              /\ Traces[t].exact => e.fcost = f.fcost
              /\ IsTranspose(f.inst, e.rows)
Old2New(e, m, F) ==   \* m: kept ones, in order
    \A x \in DOMAIN e : e[x] = IF x - 1 \in Range0(m) THEN (CHOOSE p \in DOMAIN m : m[p] = x - 1) - 1 ELSE -1
TInit == LoopInit /\ orig = <<>> /\ fr = <<>>
tInst == Is("inst") /\ Same(E, IdFix(InstOf(E))) /\ orig' = InstOf(E) /\ fr' = IdFix(InstOf(E))
tFix == Is("fix") /\ Fix(E.sel) /\ Same(E, fr')
        /\ (E.nr > 0 => Len(E.o2nc) = NC(fr.inst) /\ Len(E.o2nr) = fr.inst.nr)
        /\ Old2New(E.o2nc, ColMap(fr.inst, Range0(E.sel)), {}) /\ Old2New(E.o2nr, RowMap(fr.inst, Range0(E.sel)), {})
TraceSpec == TInit /\ [][tInst \/ tFix]_<<fvars, t, l>>
\* the design's guarantees hold along the recorded sequence
TLift == (l > 1 /\ Traces[t].exact) => (TypeOK /\ Maps /\ Exact /\ (NC(fr.inst) <= 7 => Lift))
=============================================================================
