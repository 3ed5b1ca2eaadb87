------------------------------ MODULE PrngTrace ------------------------------
EXTENDS Prng, TraceLoop
VARIABLE tally      \* number of coin flips and of true ones since the last "coin0"; values of dice seen
TInit == LoopInit /\ gens = <<>> /\ tally = <<>>
Same == UNCHANGED tally
tSeed == Is("seed") /\ Seed(E.slot, E.kind, E.seed) /\ E.lim /\ Same
tForce == Is("force") /\ Force(E.slot, E.kind, E.s) /\ Same
tFork == Is("fork") /\ Fork(E.from, E.slot) /\ Same
tNext == Is("next") /\ Draw(E.slot, E.out) /\ Same
Word == Output(gens[E.slot].kind, gens[E.slot].s)
Advance == Set1(E.slot, [gens[E.slot] EXCEPT !.s = Step(gens[E.slot].kind, @)])
\* the canonical draw times 2^k is the number made of the k highest bits of the word
tCanon == Is("canon") /\ E.exact /\ E.bits = HighBits(Word, E.k) /\ Advance /\ Same
\* v = round((x - min) / (max - min) * 2^16), for a draw x in [min,max]
tReal == Is("real") /\ E.inside /\ (LET h == ToNat(HighBits(Word, 16)) IN E.v \in {h, h + 1}) /\ Advance /\ Same
\* integer draws: within the bounds and reproducible (the same draw from a fork)
tDice == Is("dice") /\ E.inside /\ E.again /\ Advance /\ Same
tDice0 == Is("dice0") /\ tally' = {} /\ UNCHANGED gens
tDiceN == Is("dicen") /\ E.lo <= E.r /\ E.r <= E.hi /\ tally' = tally \cup {E.r} /\ Advance
tDice1 == Is("dice1") /\ tally = E.lo .. E.hi /\ UNCHANGED <<gens, tally>>
tFlip == Is("flip") /\ (E.p = 0 => ~E.r) /\ (E.p = 1000 => E.r) /\ Advance /\ Same
\* n flips with probability p/1000 gave that many true ones: at most 6 standard deviations off, 36 n p (1-p)
tFlips == Is("flips") /\ (LET d == E.trues * 10 - (E.n * E.p) \div 100
                          IN E.n <= 4000 /\ (d \div 10) * (d \div 10) <= (36 * ((E.n * E.p) \div 1000) * (1000 - E.p)) \div 1000 + 36)
          /\ UNCHANGED <<gens, tally>>
TraceSpec == TInit /\ [][tSeed \/ tForce \/ tFork \/ tNext \/ tCanon \/ tReal \/ tDice \/ tDice0 \/ tDiceN \/ tDice1 \/ tFlip \/ tFlips]_<<gens, tally, t, l>>
=============================================================================
