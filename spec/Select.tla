------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* A bounded array that keeps the smallest keys.  Its content is a         *)
(* sequence of [k, id] sorted by key; elements of equal keys may be in any *)
(* order and any of them may be the one that has to go.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cap, arr, taken
svars == <<cap, arr, taken>>
SortedK(s) == \A i \in 1 .. Len(s) - 1 : s[i].k <= s[i + 1].k
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Elts(s) == {s[i] : i \in DOMAIN s}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Elts(a) : CountIn(a, x) = CountIn(b, x)
New(n) == cap' = n /\ arr' = <<>> /\ taken' = TRUE
Clear == arr' = <<>> /\ taken' = TRUE /\ UNCHANGED cap
\* `after` is what the array may look like once x was offered, tk whether x was taken
Offer(x, after, tk) ==
    /\ SortedK(after)
    /\ \/ /\ tk /\ Len(arr) < cap /\ SameBag(after, Append(arr, x))
       \/ /\ tk /\ Len(arr) = cap /\ x.k <= arr[Len(arr)].k
          /\ \E d \in Elts(arr) : d.k = arr[Len(arr)].k /\ SameBag(Append(after, d), Append(arr, x))
       \/ /\ ~tk /\ Len(arr) = cap /\ x.k >= arr[Len(arr)].k /\ SameBag(after, arr)
    /\ arr' = after /\ taken' = tk /\ UNCHANGED cap
\* partial order helpers
IsSorted(a, b) == SameBag(a, b) /\ SortedK(b)
IsNth(a, b, n) == SameBag(a, b) /\ \A i \in DOMAIN b : (i <= n => b[i].k <= b[n + 1].k) /\ (i > n => b[i].k >= b[n + 1].k)
IsMin(a, x) == x \in Elts(a) /\ \A y \in Elts(a) : x.k <= y.k
=============================================================================
