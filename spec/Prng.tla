-------------------------------- MODULE Prng --------------------------------
(***************************************************************************)
(* The xoshiro generators (Blackman, Vigna, prng.di.unimi.it) seeded by    *)
(* SplitMix64.  A word is a little endian sequence of bytes, 8 or 4 long.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise
Zero(n) == [i \in 1 .. n |-> 0]
XorW(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
RECURSIVE CarryInto(_, _, _, _)
\* the bytes of an unnormalised sum s from position i on, with carry c
CarryInto(s, i, c, acc) == IF i > Len(s) THEN acc ELSE LET x == s[i] + c IN CarryInto(s, i + 1, x \div 256, Append(acc, x % 256))
Plus(a, b) == CarryInto([i \in DOMAIN a |-> a[i] + b[i]], 1, 0, <<>>)
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, i, j) == IF j = 0 THEN 0 ELSE a[j] * b[i + 1 - j] + SumTo(a, b, i, j - 1)
Times(a, b) == CarryInto([i \in DOMAIN a |-> SumTo(a, b, i, i)], 1, 0, <<>>)
Pow2(n) == 2 ^ n
At(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
ShL(a, s) == LET q == s \div 8
                 r == s % 8
             IN [i \in DOMAIN a |-> ((At(a, i - q) * Pow2(r)) % 256) + At(a, i - q - 1) \div Pow2(8 - r)]
ShR(a, s) == LET q == s \div 8
                 r == s % 8
             IN [i \in DOMAIN a |-> At(a, i + q) \div Pow2(r) + ((At(a, i + q + 1) * Pow2(8 - r)) % 256)]
RotL(a, s) == Plus(ShL(a, s), ShR(a, 8 * Len(a) - s))
RECURSIVE ToNat(_)
ToNat(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * ToNat(Tail(a))

\* SplitMix64
Gamma == <<21, 124, 74, 127, 185, 121, 55, 158>>        \* 9e3779b97f4a7c15
M1 == <<185, 229, 228, 28, 109, 71, 88, 191>>           \* bf58476d1ce4e5b9
M2 == <<235, 17, 49, 19, 187, 73, 208, 148>>            \* 94d049bb133111eb
Mix(z) == LET a == Times(XorW(z, ShR(z, 30)), M1)
              b == Times(XorW(a, ShR(a, 27)), M2)
          IN XorW(b, ShR(b, 31))
SeqStates(seed) == LET s1 == Plus(seed, Gamma)
                       s2 == Plus(s1, Gamma)
                       s3 == Plus(s2, Gamma)
                   IN <<s1, s2, s3, Plus(s3, Gamma)>>
Width(kind) == IF kind \in {"128p", "128pp"} THEN 4 ELSE 8
Seeded(kind, seed) == LET z == SeqStates(seed) IN [i \in 1 .. 4 |-> SubSeq(Mix(z[i]), 1, Width(kind))]

\* xoshiro
Output(kind, s) == CASE kind = "256p" -> Plus(s[1], s[4])
                     [] kind = "256pp" -> Plus(RotL(Plus(s[1], s[4]), 23), s[1])
                     [] kind = "128p" -> Plus(s[1], s[4])
                     [] kind = "128pp" -> Plus(RotL(Plus(s[1], s[4]), 7), s[1])
Step(kind, s) ==
    LET t == ShL(s[2], IF Width(kind) = 8 THEN 17 ELSE 9)
        c == XorW(s[3], s[1])
        d == XorW(s[4], s[2])
        b == XorW(s[2], c)
        a == XorW(s[1], d)
    IN <<a, b, XorW(c, t), RotL(d, IF Width(kind) = 8 THEN 45 ELSE 11)>>

\* the published test vectors
RECURSIVE Outs(_, _, _)
Outs(kind, s, n) == IF n = 0 THEN <<>> ELSE <<Output(kind, s)>> \o Outs(kind, Step(kind, s), n - 1)
S1234(w) == [i \in 1 .. 4 |-> [j \in 1 .. w |-> IF j = 1 THEN i ELSE 0]]
ASSUME Mix(Plus(<<135, 214, 18, 0, 0, 0, 0, 0>>, Gamma)) = <<133,252,8,251,23,208,158,89>>
ASSUME Outs("256pp", S1234(8), 4) = <<<<1,0,128,2,0,0,0,0>>, <<103,0,128,3,0,0,0,0>>, <<103,0,128,3,0,192,12,0>>, <<178,0,68,153,1,194,12,0>>>>
ASSUME Outs("256p", S1234(8), 4) = <<<<5,0,0,0,0,0,0,0>>, <<7,0,0,0,0,192,0,0>>, <<7,0,0,24,0,192,0,0>>, <<2,3,4,24,0,96,1,128>>>>
ASSUME Outs("128pp", S1234(4), 4) = <<<<129,2,0,0>>, <<135,3,24,0>>, <<135,51,24,192>>, <<2,59,174,209>>>>
ASSUME Outs("128p", S1234(4), 4) = <<<<5,0,0,0>>, <<7,48,0,0>>, <<7,48,128,1>>, <<14,92,160,1>>>>

\* high bits: the canonical draw of k bits is the word shifted right to its k highest bits
HighBits(w, k) == ShR(w, 8 * Len(w) - k)

VARIABLES gens     \* slot |-> [kind, s]
Set1(slot, g) == gens' = [x \in DOMAIN gens \cup {slot} |-> IF x = slot THEN g ELSE gens[x]]
Seed(slot, kind, seed) == Set1(slot, [kind |-> kind, s |-> Seeded(kind, seed)])
Force(slot, kind, s) == Set1(slot, [kind |-> kind, s |-> s])
Fork(from, to) == from \in DOMAIN gens /\ Set1(to, gens[from])
Draw(slot, out) == slot \in DOMAIN gens /\ out = Output(gens[slot].kind, gens[slot].s)
                   /\ Set1(slot, [gens[slot] EXCEPT !.s = Step(gens[slot].kind, @)])
=============================================================================
