------------------------------- MODULE Fixing -------------------------------
(***************************************************************************)
(* Fixing columns, one set after the other.  `fr` is the current residual  *)
(* instance with what leads back to the original one.                      *)
(***************************************************************************)
EXTENDS SetCover

VARIABLES orig, fr
fvars == <<orig, fr>>

FixOp(f, sel) ==
    LET F == Range0(sel)
    IN [inst |-> Residual(f.inst, F), fixed |-> f.fixed \o Compose(f.cmap, sel),
        fcost |-> f.fcost + CostOf(f.inst, sel),
        cmap |-> Compose(f.cmap, ColMap(f.inst, F)), rmap |-> Compose(f.rmap, RowMap(f.inst, F))]
IdFix(inst) == [inst |-> inst, fixed |-> <<>>, fcost |-> 0, cmap |-> Identity(NC(inst)), rmap |-> Identity(inst.nr)]
Init0(inst) == orig = inst /\ fr = IdFix(inst)
Fix(sel) ==
    /\ sel # <<>> /\ ValidSel(fr.inst, sel) /\ fr.inst.nr > 0
    /\ fr' = FixOp(fr, sel) /\ UNCHANGED orig

(***************************************************************************)
(* What the sequence must preserve (checked on the design for all small    *)
(* instances and all sequences, see FixingMC, and on recorded sequences).  *)
(***************************************************************************)
TypeOK ==
    /\ WellFormed(fr.inst) /\ NoDup(fr.fixed) /\ NoDup(fr.cmap) /\ NoDup(fr.rmap)
    /\ Range0(fr.fixed) \cap Range0(fr.cmap) = {}
    /\ Len(fr.cmap) = NC(fr.inst) /\ Len(fr.rmap) = fr.inst.nr
\* rows and columns are the ones they stem from
Maps ==
    /\ Range0(fr.rmap) = Rows(orig) \ CoveredBy(orig, Range0(fr.fixed))
    /\ \A j \in Cols(fr.inst) :
        /\ fr.inst.costs[j + 1] = orig.costs[fr.cmap[j + 1] + 1]
        /\ {fr.rmap[i + 1] : i \in ColSet(fr.inst, j)} = ColSet(orig, fr.cmap[j + 1]) \cap Range0(fr.rmap)
        /\ fr.fixed # <<>> => ColSet(fr.inst, j) # {}
Exact == fr.fcost = CostOf(orig, fr.fixed)
\* any cover of what is left, with the fixed columns, covers everything at the sum of the costs
Lift == \A S \in SUBSET Cols(fr.inst) : CoveredBy(fr.inst, S) = Rows(fr.inst) =>
    LET sel == SetToSortSeq(S, <)
        full == fr.fixed \o Compose(fr.cmap, sel)
    IN IsCover(orig, full) /\ CostOf(orig, full) = fr.fcost + CostOf(fr.inst, sel)
\* and no completion is lost
Complete == Feasible(orig) => Feasible(fr.inst)
=============================================================================
