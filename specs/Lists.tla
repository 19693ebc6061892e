------------------------------- MODULE Lists --------------------------------
(* Growable lists and in-place sorts.                                          *)
EXTENDS Integers, Sequences, FiniteSets
(* a list is the sequence of what was appended; room is never less than that   *)
AppendOk(old, v, new) == new = Append(old, v)
(* x2 (with companions y2) is x sorted on positions l..r and untouched outside;*)
(* y2[k] names the position the k-th entry came from                           *)
Ordered(x, l, r) == \A k \in l..(r - 1) : x[k] <= x[k + 1]
Moves(x, x2, y2, l, r) ==
    /\ \A k \in 1..Len(x) : y2[k] \in 1..Len(x) /\ x2[k] = x[y2[k]]
    /\ \A k \in 1..Len(x) : (k < l \/ k > r) => y2[k] = k
    /\ Cardinality({ y2[k] : k \in 1..Len(x) }) = Len(x)
=============================================================================
