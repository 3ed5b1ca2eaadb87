--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: from a list of words to the parameters they set.      *)
(* A parameter is either still the default or the word that set it; words  *)
(* are sequences of character codes.                                       *)
(***************************************************************************)
EXTENDS Text, SequencesExt
CONSTANT RealMax                     \* digits of the largest value of the small reals
W(c) == c                            \* for readability: words below are written as codes
Short == [inst |-> <<45, 105>>, parser |-> <<45, 112>>, sol |-> <<45, 111>>, init |-> <<45, 119>>, seed |-> <<45, 115>>, tlim |-> <<45, 116>>,
          verbose |-> <<45, 118>>, eps |-> <<45, 101>>, giters |-> <<45, 103>>, beta |-> <<45, 98>>, abs |-> <<45, 97>>, rel |-> <<45, 114>>]
Long == [inst |-> <<45, 45, 105, 110, 115, 116>>,                                                    \* --inst
         parser |-> <<45, 45, 112, 97, 114, 115, 101, 114>>,                                         \* --parser
         sol |-> <<45, 45, 111, 117, 116, 45, 115, 111, 108>>,                                       \* --out-sol
         init |-> <<45, 45, 105, 110, 105, 116, 45, 115, 111, 108>>,                                 \* --init-sol
         seed |-> <<45, 45, 115, 101, 101, 100>>,                                                    \* --seed
         tlim |-> <<45, 45, 116, 105, 109, 101, 108, 105, 109, 105, 116>>,                           \* --timelimit
         verbose |-> <<45, 45, 118, 101, 114, 98, 111, 115, 101>>,                                   \* --verbose
         eps |-> <<45, 45, 101, 112, 115, 105, 108, 111, 110>>,                                      \* --epsilon
         giters |-> <<45, 45, 104, 101, 117, 114, 45, 105, 116, 101, 114, 115>>,                     \* --heur-iters
         beta |-> <<45, 45, 98, 101, 116, 97>>,                                                      \* --beta
         abs |-> <<45, 45, 97, 98, 115, 45, 115, 117, 98, 103, 45, 101, 120, 105, 116>>,             \* --abs-subg-exit
         rel |-> <<45, 45, 114, 101, 108, 45, 115, 117, 98, 103, 45, 101, 120, 105, 116>>]           \* --rel-subg-exit
Names == DOMAIN Short
UnitFlags == {<<45, 117>>, <<45, 45, 117, 110, 105, 116, 45, 99, 111, 115, 116, 115>>}                \* -u --unit-costs
Paths == {"inst", "parser", "sol", "init"}
Naturals64 == {"seed", "verbose", "giters"}
Max64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
\* largest double, halfway to the next power of two: no literal of a test comes near it
Flag(w) == {n \in Names : w = Short[n] \/ w = Long[n]}

Whole(w, v) == v.ok /\ Trim(From(w, v.n + 1)) = <<>> /\ (v.n = Len(w) \/ IsSpace(w[v.n + 1]))
ValueOK(n, w) ==
    IF n \in Paths THEN TRUE
    ELSE IF n \in Naturals64 THEN LET v == IntPrefix(w) IN Whole(w, v) /\ (~v.neg \/ v.d = <<>>) /\ LeqD(v.d, Max64)
    ELSE LET v == RealPrefix(w) IN Whole(w, v) /\ (IF n = "tlim" THEN Len(v.d) + v.e <= 308 ELSE LeqReal(v.d, v.e, RealMax, 0))

Default == [n \in Names |-> <<>>]     \* a parameter: <<>> or <<word>>
Start == [set |-> Default, unit |-> FALSE, err |-> FALSE]
RECURSIVE Read(_, _)
Read(args, s) ==
    IF args = <<>> \/ s.err THEN s
    ELSE LET w == Head(args)
             F == Flag(w)
         IN IF w \in UnitFlags THEN Read(Tail(args), [s EXCEPT !.unit = TRUE])
            ELSE IF F = {} \/ Len(args) = 1 THEN Read(Tail(args), s)
            ELSE LET n == CHOOSE x \in F : TRUE
                     a == args[2]
                 IN Read(Tail(Tail(args)), IF ValueOK(n, a) THEN [s EXCEPT !.set[n] = <<a>>] ELSE [s EXCEPT !.err = TRUE])
Given(s, n) == IF s.set[n] = <<>> THEN <<>> ELSE s.set[n][1]
Parse(args) == LET s == Read(args, Start) IN [s EXCEPT !.err = s.err \/ Given(s, "inst") = <<>>]
\* the instance file name without folder and extension, plus .sol
DotSol == <<46, 115, 111, 108>>
BaseName(p) == From(p, LastAt(p, LAMBDA c : c = 47 \/ c = 92) + 1)
Stem(b) == LET i == LastAt(b, LAMBDA c : c = 46) IN IF i = 0 THEN b ELSE Upto(b, i - 1)
SolName(p) == Stem(BaseName(p)) \o DotSol
=============================================================================
