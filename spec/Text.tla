-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of character codes.  Numbers are kept as sequences  *)
(* of decimal digits, so that no integer of the model limits their size.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
IsSpace(c) == c = 32 \/ c \in 9 .. 13
IsDigit(c) == c \in 48 .. 57
Plus == 43
Minus == 45
Dot == 46
IsExp(c) == c \in {69, 101}
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstAt(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN IF I = {} THEN 0 ELSE SMin(I)      \* 0: none
LastAt(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN IF I = {} THEN 0 ELSE SMax(I)
NotSp(c) == ~IsSpace(c)
LTrim(s) == LET i == FirstAt(s, NotSp) IN IF i = 0 THEN <<>> ELSE From(s, i)
RTrim(s) == Upto(s, LastAt(s, NotSp))
Trim(s) == LTrim(RTrim(s))
Places(s, P(_)) == SelectSeq([i \in 1 .. Len(s) |-> i], P)          \* the places of s where P holds, in order
Split(s) == LET b == Places(s, LAMBDA i : NotSp(s[i]) /\ (i = 1 \/ IsSpace(s[i - 1])))
                e == Places(s, LAMBDA i : NotSp(s[i]) /\ (i = Len(s) \/ IsSpace(s[i + 1])))
            IN [w \in DOMAIN b |-> SubSeq(s, b[w], e[w])]
Less(a, b) == LET D == {i \in 1 .. (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] # b[i]}
              IN IF D = {} THEN Len(a) < Len(b) ELSE a[SMin(D)] < b[SMin(D)]
Lines(s) == LET nl == Places(s, LAMBDA i : s[i] = 10)
                n == Len(nl) + (IF s = <<>> \/ s[Len(s)] = 10 THEN 0 ELSE 1)
            IN [k \in 1 .. n |-> SubSeq(s, IF k = 1 THEN 1 ELSE nl[k - 1] + 1, IF k > Len(nl) THEN Len(s) ELSE nl[k] - 1)]

\* ---- digit sequences (values 0..9, most significant first)
Strip(d) == LET i == FirstAt(d, LAMBDA c : c # 0) IN IF i = 0 THEN <<>> ELSE From(d, i)
Digits(s) == [i \in DOMAIN s |-> s[i] - 48]
LeqD(a, b) == LET x == Strip(a)
                  y == Strip(b)
              IN IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE x = y \/ Less(x, y)
Run(s, i) == LET J == {j \in i .. Len(s) : ~IsDigit(s[j])} IN (IF J = {} THEN Len(s) ELSE SMin(J) - 1)  \* last digit of the run starting at i (i-1: none)

None == [ok |-> FALSE, n |-> 0, neg |-> FALSE, d |-> <<>>, e |-> 0]
Signed(s, i) == i <= Len(s) /\ s[i] \in {Plus, Minus}
\* the longest prefix that is an integer: blanks, sign, digits;  n characters
IntPrefix(s) ==
    LET b == FirstAt(s, NotSp)
        i == IF Signed(s, b) THEN b + 1 ELSE b
        r == Run(s, i)
    IN IF b = 0 \/ r < i THEN None
       ELSE [ok |-> TRUE, n |-> r, neg |-> s[b] = Minus, d |-> Strip(Digits(SubSeq(s, i, r))), e |-> 0]
\* lo, hi: digits of the magnitudes of the smallest and largest value
FitsInt(v, lo, hi) == LeqD(v.d, IF v.neg THEN lo ELSE hi)

\* the longest prefix that is a decimal real: blanks, sign, digits [. digits] [e[sign]digits]; value d * 10^e
RECURSIVE Nat10(_, _)
Nat10(d, a) == IF d = <<>> THEN a ELSE Nat10(Tail(d), IF a > 100000 THEN a ELSE 10 * a + Head(d))
RealPrefix(s) ==
    LET b == FirstAt(s, NotSp)
        i == IF Signed(s, b) THEN b + 1 ELSE b
        r == Run(s, i)
        dot == r < Len(s) /\ s[r + 1] = Dot
        f == IF dot THEN Run(s, r + 2) ELSE r
        mant == Digits(SubSeq(s, i, r)) \o (IF dot THEN Digits(SubSeq(s, r + 2, f)) ELSE <<>>)
        frac == IF dot THEN f - (r + 1) ELSE 0
        x == f < Len(s) /\ IsExp(s[f + 1])
        k == IF x /\ Signed(s, f + 2) THEN f + 3 ELSE f + 2
        g == IF x THEN Run(s, k) ELSE 0
        ev == IF x /\ g >= k THEN Nat10(Digits(SubSeq(s, k, g)), 0) * (IF s[k - 1] = Minus THEN -1 ELSE 1) ELSE 0
    IN IF b = 0 \/ mant = <<>> THEN None
       ELSE [ok |-> TRUE, n |-> IF x /\ g >= k THEN g ELSE f, neg |-> s[b] = Minus, d |-> Strip(mant), e |-> ev - frac]
\* comparison of a * 10^e with b * 10^f  (digits a, b)
Zeros(n) == [i \in 1 .. n |-> 0]
LeqReal(a, e, b, f) ==
    LET x == Strip(a)
        y == Strip(b)
        m == IF e < f THEN e ELSE f
    IN IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
       ELSE IF Len(x) + e # Len(y) + f THEN Len(x) + e < Len(y) + f
       ELSE LeqD(x \o Zeros(e - m), y \o Zeros(f - m))
=============================================================================
