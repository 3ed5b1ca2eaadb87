----------------------------- MODULE SessionGen -----------------------------
(* All sequences of MaxLen calls over a small alphabet, as stimuli for the Python solver. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE h
Adds == {[o |-> "add", els |-> e, cost |-> c] : e \in {<<0>>, <<1>>, <<0, 1>>, <<2, 0>>}, c \in {4, 0}}
        \cup {[o |-> "add", els |-> <<0, 1, 2>>, cost |-> 12], [o |-> "add", els |-> <<>>, cost |-> 4], [o |-> "add", els |-> <<0, -1>>, cost |-> 4], [o |-> "add", els |-> <<3>>, cost |-> -4]}
Other == {[o |-> x, els |-> <<>>, cost |-> 0] : x \in {"solve", "file", "badfile", "badcall"}}
GInit == h = <<>>
GNext == Len(h) < MaxLen /\ \E a \in Adds \cup Other : h' = Append(h, a)
GSpec == GInit /\ [][GNext]_h
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson(h))
=============================================================================
