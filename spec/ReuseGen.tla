------------------------------ MODULE ReuseGen ------------------------------
(* All sequences of MaxLen calls of two objects kept (1, 2) and throw-away ones (0) on up to three
   inputs, up to renaming of inputs and of the objects kept. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE h
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Ins == Max({0} \cup {h[q].x : q \in DOMAIN h})
Obs == Max({0} \cup {h[q].o : q \in DOMAIN h})
Min2(a, b) == IF a < b THEN a ELSE b
GInit == h = <<>>
GNext == Len(h) < MaxLen /\ \E o \in 0 .. Min2(2, Obs + 1), x \in 1 .. Min2(3, Ins + 1) : h' = Append(h, [o |-> o, x |-> x])
GSpec == GInit /\ [][GNext]_h
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson(h))
=============================================================================
