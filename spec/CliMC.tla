-------------------------------- MODULE CliMC --------------------------------
(***************************************************************************)
(* The design: for all lists of up to N words of a small vocabulary, what  *)
(* Parse promises.  Words: flags of three kinds, values, junk.             *)
(***************************************************************************)
EXTENDS Cli, TLC
CONSTANT N
mRealMax == <<1, 0, 0>>
Five == <<53>>
Bad == <<45, 53>>                      \* -5: fine as a path or a limit, not as a seed
Vocabulary == {Short["inst"], Long["seed"], Short["tlim"], <<45, 117>>, Five, Bad}
VARIABLE args
MCInit == args = <<>>
MCNext == Len(args) < N /\ \E w \in Vocabulary : args' = Append(args, w)
MCSpec == MCInit /\ [][MCNext]_args
s == Parse(args)
\* independent of the fold: the places that are flags are those not consumed as values
RECURSIVE Slots(_, _)
Slots(i, A) == IF i > Len(args) THEN A ELSE IF Flag(args[i]) # {} /\ i < Len(args) THEN Slots(i + 2, A \cup {i}) ELSE Slots(i + 1, A)
P == Slots(1, {})
Of(n) == {i \in P : n \in Flag(args[i])}
LastWins == ~s.err => \A n \in Names : s.set[n] = IF Of(n) = {} THEN <<>> ELSE <<args[SMax(Of(n)) + 1]>>
UnitOnce == ~s.err => s.unit = \E i \in DOMAIN args : args[i] \in UnitFlags /\ (i - 1) \notin P
ErrorsJustified == s.err = ((\E i \in P : \E n \in Flag(args[i]) : ~ValueOK(n, args[i + 1])) \/ Of("inst") = {})
=============================================================================
