------------------------------- MODULE StepCtl -------------------------------
(***************************************************************************)
(* The three schedules of the subgradient phase.  Bounds are integers;     *)
(* step sizes are integers in units of 2e-8 (10 = 500000000, 1e-6 = 50).   *)
(***************************************************************************)
EXTENDS Integers, Sequences
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
NoLb == 2000000000
StepLow == 50
StepHigh == 500000000
ClampStep(s) == MinI(StepHigh, MaxI(StepLow, s))

VARIABLES
    st,    \* step size:  [p, next, s, mn, mx]
    xt,    \* exit:       [p, next, prev]      prev = -NoLb before the first period
    pt     \* pricing:    [p, next, max]
ctl == <<st, xt, pt>>

NewStep(p, s) == [p |-> p, next |-> p, s |-> s, mn |-> NoLb, mx |-> -NoLb]
NewExit(p) == [p |-> p, next |-> p, prev |-> -NoLb]
NewPrice(p, m) == [p |-> p, next |-> p, max |-> m]

\* slack: the bounds are known up to that much
Halve(mn, mx, d) == (mx - mn) - d > (AbsI(mx) + d) \div 100          \* spread certainly above 1%
NotHalve(mn, mx, d) == (mx - mn) + d <= (AbsI(mx) - d) \div 100       \* certainly not
Grow(mn, mx, d) == (mx - mn) + d <= (AbsI(mx) - d) \div 1000          \* certainly at most 0.1%
NotGrow(mn, mx, d) == (mx - mn) - d > (AbsI(mx) + d) \div 1000
NearStep(a, b) == AbsI(a - b) <= 2 + (AbsI(b) \div 4000000)

\* values the recording cannot represent are clamped; nothing is known about their differences
Clamped(x) == AbsI(x) >= 1000000000
StepAfter(m, it, lb, s, d) ==       \* may the step size be s after iteration it with bound lb?
    LET mn == MinI(m.mn, lb)
        mx == MaxI(m.mx, lb)
    IN IF it # m.next THEN s = m.s
       ELSE \/ ~NotHalve(mn, mx, d) /\ NearStep(s, ClampStep(m.s \div 2))
            \/ ~NotGrow(mn, mx, d) /\ NearStep(s, ClampStep(m.s + m.s \div 2))
            \/ ~Halve(mn, mx, d) /\ ~Grow(mn, mx, d) /\ NearStep(s, ClampStep(m.s))
            \/ (Clamped(mn) \/ Clamped(mx)) /\ \E q \in {m.s \div 2, m.s, m.s + m.s \div 2} : NearStep(s, ClampStep(q))
StepState(m, it, lb, s) ==
    IF it # m.next THEN [m EXCEPT !.mn = MinI(@, lb), !.mx = MaxI(@, lb)]
    ELSE [m EXCEPT !.next = @ + m.p, !.s = s, !.mn = NoLb, !.mx = -NoLb]

\* the improvement is below the thresholds a and r (r in units of 2^-20, bounds positive)
Exits(m, it, lb, a, r) == it = m.next /\ m.prev # -NoLb /\ lb - m.prev < a /\ (lb - m.prev) * 1048576 < r * lb
ExitState(m, it, lb) == IF it = m.next THEN [m EXCEPT !.next = @ + m.p, !.prev = lb] ELSE m

\* periods allowed after a pricing with core bound c, real bound r, upper bound u (known up to d)
Periods(m, c, r, u, d) ==
    LET g == c - r
        le(n) == g - d <= (u + d) \div n        \* maybe at most 1/n
        gt(n) == g + d > (u - d) \div n         \* maybe above
        any == Clamped(c) \/ Clamped(r) \/ Clamped(u)
    IN IF any THEN {MinI(m.max, 10 * m.p), MinI(m.max, 5 * m.p), MinI(m.max, 2 * m.p), 10} ELSE
       (IF le(1000000) THEN {MinI(m.max, 10 * m.p)} ELSE {})
       \cup (IF gt(1000000) /\ le(50) THEN {MinI(m.max, 5 * m.p)} ELSE {})
       \cup (IF gt(50) /\ le(5) THEN {MinI(m.max, 2 * m.p)} ELSE {})
       \cup (IF gt(5) THEN {10} ELSE {})
PriceStates(m, c, r, u, d) == {[m EXCEPT !.p = q, !.next = @ + q] : q \in Periods(m, c, r, u, d)}
=============================================================================
