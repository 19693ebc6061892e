----------------------------- MODULE QuickSort ------------------------------
(* The sort's design: partition around the middle key, then both parts, for    *)
(* every array of at most N keys out of 1..K and every range of it.            *)
(* The scans must never leave the range and the parts must cover what is not   *)
(* yet in place.  Guard = FALSE drops the test that stops the scan indices     *)
(* from crossing (a negative control).                                         *)
EXTENDS Lists, TLC
CONSTANTS N, K, Guard
VARIABLES x0, y, x, lo, hi, todo, i, j, pv, pc
vars == << x0, y, x, lo, hi, todo, i, j, pv, pc >>
Init == /\ \E n \in 1..N : x0 \in [1..n -> 1..K]
        /\ \E a \in 1..Len(x0), b \in 1..Len(x0) : a <= b /\ lo = a /\ hi = b
        /\ x = x0 /\ y = [k \in 1..Len(x0) |-> k]
        /\ todo = << << lo, hi >> >> /\ i = 0 /\ j = 0 /\ pv = 0 /\ pc = "take"
Take == /\ pc = "take" /\ todo # << >>
        /\ LET t == todo[Len(todo)] IN i' = t[1] /\ j' = t[2] /\ pv' = x[(t[1] + t[2]) \div 2]
        /\ pc' = "scan" /\ UNCHANGED << x0, y, x, lo, hi, todo >>
L == todo[Len(todo)][1]
R == todo[Len(todo)][2]
ScanI == pc = "scan" /\ i <= j /\ x[i] < pv /\ i' = i + 1 /\ UNCHANGED << x0, y, x, lo, hi, todo, j, pv, pc >>
ScanJ == pc = "scan" /\ i <= j /\ ~(x[i] < pv) /\ x[j] > pv /\ j' = j - 1 /\ UNCHANGED << x0, y, x, lo, hi, todo, i, pv, pc >>
SwapA(f, a, b) == [f EXCEPT ![a] = f[b], ![b] = f[a]]
Swap == /\ pc = "scan" /\ i <= j /\ ~(x[i] < pv) /\ ~(x[j] > pv)
        /\ x' = SwapA(x, i, j) /\ y' = SwapA(y, i, j) /\ i' = i + 1 /\ j' = j - 1
        /\ UNCHANGED << x0, lo, hi, todo, pv, pc >>
Split == /\ pc = "scan" /\ i > j
         /\ todo' = SubSeq(todo, 1, Len(todo) - 1) \o (IF L < j THEN << << L, j >> >> ELSE << >>) \o (IF (IF Guard THEN i < R ELSE i + 1 < R) THEN << << i, R >> >> ELSE << >>)
         /\ pc' = "take" /\ UNCHANGED << x0, y, x, lo, hi, i, j, pv >>
Next == Take \/ ScanI \/ ScanJ \/ Swap \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InRange == pc = "scan" => L <= i /\ i <= R + 1 /\ L - 1 <= j /\ j <= R
Done == pc = "take" /\ todo = << >>
Sorted == Done => Ordered(x, lo, hi) /\ Moves(x0, x, y, lo, hi)
Ends == <>Done
=============================================================================
