----------------------------- MODULE PricingTrace -----------------------------
EXTENDS Pricing, RecordLoop
Inst == [nr |-> R.nr, cols |-> R.cols, costs |-> R.costs]
Rc == [j \in 1 .. Len(R.cols) |-> RedCost(Inst, R.u, j - 1)]
Bound == IF R.exact THEN R.lb = LagBound(Inst, R.u) ELSE Near(R.lb, LagBound(Inst, R.u), NC(Inst) * Inst.nr + NC(Inst))
CoreMap == ValidSel(Inst, R.map)
CoreCopy == CopyOf(Inst, R.map, [nr |-> Len(R.crows), cols |-> R.ccols, costs |-> R.ccosts])
CoreRows == IsTranspose([nr |-> Inst.nr, cols |-> R.ccols, costs |-> R.ccosts], R.crows)
Selection == R.exact => GoodSelection(Inst, Rc, Range0(R.map), R.s)
Unchanged == R.same
=============================================================================
