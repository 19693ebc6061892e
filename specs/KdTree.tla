------------------------------- MODULE KdTree -------------------------------
(* The design of the index: insertion sends a point left when its coordinate  *)
(* does not exceed the node's, right otherwise, the coordinate alternating    *)
(* with depth; a search looks at a side only while something on that side     *)
(* could still be closer than the best so far.  Rebalancing is insertion in   *)
(* another order.  Checked: for every insertion order the pruned search gives *)
(* a nearest admitted point closer than the bound, and the pruned range query *)
(* gives exactly the points inside.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, H, MaxN, Bounds, Strict     \* Strict = FALSE: a wrong rule that prunes ties to the right (negative control)
VARIABLES P, L, R                        \* points in insertion order; children (0: none)
vars == << P, L, R >>
Grid == (0..W) \X (0..H)
Sq(a) == a * a
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2])
Ax(d) == (d % 2) + 1
RECURSIVE Place(_, _, _, _, _)
Place(n, d, p, l, r) ==      \* where the new point hangs: << node, side >>
    IF p[Ax(d)] > P[n][Ax(d)] THEN IF r[n] = 0 THEN << n, "R" >> ELSE Place(r[n], d + 1, p, l, r)
    ELSE IF l[n] = 0 THEN << n, "L" >> ELSE Place(l[n], d + 1, p, l, r)
Init == P = << >> /\ L = << >> /\ R = << >>
Insert(p) ==
    /\ Len(P) < MaxN
    /\ P' = Append(P, p)
    /\ IF P = << >> THEN L' = << 0 >> /\ R' = << 0 >>
       ELSE LET a == Place(1, 0, p, L, R) k == Len(P) + 1 IN
            /\ L' = Append(IF a[2] = "L" THEN [L EXCEPT ![a[1]] = k] ELSE L, 0)
            /\ R' = Append(IF a[2] = "R" THEN [R EXCEPT ![a[1]] = k] ELSE R, 0)
Next == \E p \in Grid : Insert(p)
Spec == Init /\ [][Next]_vars
(* the search: best is << index (0 none), squared distance >>; coordinates of the target are doubled so that midpoints are covered *)
Left(x, n, d, b)  == LET g == x[Ax(d)] - 2 * P[n][Ax(d)] IN g < 0 \/ Sq(g) < b
Right(x, n, d, b) == LET g == 2 * P[n][Ax(d)] - x[Ax(d)] IN IF Strict THEN g < 0 \/ Sq(g) < b ELSE g < 0
Dd(x, n) == Sq(2 * P[n][1] - x[1]) + Sq(2 * P[n][2] - x[2])
RECURSIVE Search(_, _, _, _, _)
Search(x, ex, n, d, b) ==
    IF n = 0 THEN b
    ELSE LET b1 == IF ~(n \in ex) /\ Dd(x, n) < b[2] THEN << n, Dd(x, n) >> ELSE b
             near == IF x[Ax(d)] > 2 * P[n][Ax(d)] THEN "R" ELSE "L"
             go(side, bb) == IF side = "R" THEN IF Right(x, n, d, bb[2]) THEN Search(x, ex, R[n], d + 1, bb) ELSE bb
                             ELSE IF Left(x, n, d, bb[2]) THEN Search(x, ex, L[n], d + 1, bb) ELSE bb
         IN go(IF near = "R" THEN "L" ELSE "R", go(near, b1))
RECURSIVE Range(_, _, _, _)
Range(x, rr, n, d) ==
    IF n = 0 THEN {}
    ELSE (IF Dd(x, n) < rr THEN { n } ELSE {})
         \cup (IF Right(x, n, d, rr) THEN Range(x, rr, R[n], d + 1) ELSE {})
         \cup (IF Left(x, n, d, rr) THEN Range(x, rr, L[n], d + 1) ELSE {})
Targets == (-1..(2 * W + 1)) \X (-1..(2 * H + 1))
Root == IF P = << >> THEN 0 ELSE 1
SearchExact == \A x \in Targets : \A b \in Bounds : \A ex \in { {}, { 1 }, { Len(P) } } :
    LET r == Search(x, ex, Root, 0, << 0, b >>)
        C == { n \in (1..Len(P)) \ ex : Dd(x, n) < b }
    IN IF C = {} THEN r = << 0, b >> ELSE r[1] \in C /\ r[2] = Dd(x, r[1]) /\ \A n \in C : Dd(x, n) >= r[2]
RangeExact == \A x \in Targets : \A b \in Bounds : Range(x, b, Root, 0) = { n \in 1..Len(P) : Dd(x, n) < b }
(* every point hangs in the tree exactly once *)
RECURSIVE Nodes(_)
Nodes(n) == IF n = 0 THEN << >> ELSE << n >> \o Nodes(L[n]) \o Nodes(R[n])
AllIn == LET s == Nodes(Root) IN Len(s) = Len(P) /\ { s[k] : k \in 1..Len(s) } = 1..Len(P)
=============================================================================
