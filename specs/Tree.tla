-------------------------------- MODULE Tree --------------------------------
(* The point collection: what each operation does to the stored data, and     *)
(* which answers to a query are right.  Points have integer coordinates; the  *)
(* first D of them span the search space, the rest are real attributes.       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES D,     \* dimension of the search space
          pts,   \* sequence of [x: coordinates, n: normal (direction), a: attribute list]
          lnk    \* per point, the set of points it is linked to
state == << D, pts, lnk >>

N == Len(pts)
Empty(d) == D' = d /\ pts' = << >> /\ lnk' = << >>
Add(p) == /\ pts' = Append(pts, p)
          /\ lnk' = Append(lnk, {})
          /\ UNCHANGED D
Link1(i, j) == lnk' = [lnk EXCEPT ![i] = @ \cup { j }] /\ UNCHANGED << D, pts >>
Link2(i, j) == lnk' = [lnk EXCEPT ![i] = @ \cup { j }, ![j] = @ \cup { i }] /\ UNCHANGED << D, pts >>
Unlink == lnk' = [i \in 1..N |-> {}] /\ UNCHANGED << D, pts >>
SetReal(i, k, v) == pts' = [pts EXCEPT ![i].x[D + k] = v] /\ UNCHANGED << D, lnk >>
SetInt(i, k, v) == pts' = [pts EXCEPT ![i].a[1 + k] = v] /\ UNCHANGED << D, lnk >>
(* renumbering: new place i holds what place q[i] held                         *)
Permute(q) == LET inv == [j \in 1..N |-> CHOOSE i \in 1..N : q[i] = j] IN
              /\ pts' = [i \in 1..N |-> pts[q[i]]]
              /\ lnk' = [i \in 1..N |-> { inv[j] : j \in lnk[q[i]] }]
              /\ UNCHANGED D

(* ---- queries ---- *)
Dif(x, y) == [k \in 1..D |-> x[k] - y[k]]
Dot(u, v) == CASE D = 1 -> u[1] * v[1]
               [] D = 2 -> u[1] * v[1] + u[2] * v[2]
               [] D = 3 -> u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
               [] OTHER -> u[1] * v[1] + u[2] * v[2] + u[3] * v[3] + u[4] * v[4]
D2(x, y) == CASE D = 1 -> (x[1] - y[1]) * (x[1] - y[1])
              [] D = 2 -> (x[1] - y[1]) * (x[1] - y[1]) + (x[2] - y[2]) * (x[2] - y[2])
              [] D = 3 -> (x[1] - y[1]) * (x[1] - y[1]) + (x[2] - y[2]) * (x[2] - y[2]) + (x[3] - y[3]) * (x[3] - y[3])
              [] OTHER -> (x[1] - y[1]) * (x[1] - y[1]) + (x[2] - y[2]) * (x[2] - y[2]) + (x[3] - y[3]) * (x[3] - y[3]) + (x[4] - y[4]) * (x[4] - y[4])
Big(a) == IF a = 0 THEN 1 ELSE a
(* three-valued comparisons with a threshold whose square is tn / td:          *)
(* 2 above, 1 equal (rounding decides), 0 below                                *)
Cmp(a, b) == IF a > b THEN 2 ELSE IF a = b THEN 1 ELSE 0
SinOver(d, n, tn, td) == LET dd == D2(d, [k \in 1..D |-> 0]) nn == Big(Dot(n, n)) dn == Dot(d, n)
                         IN Cmp(td * (dd * nn - dn * dn), tn * dd * nn)
CosOver(d, n, tn, td) == LET dd == Big(Dot(d, d)) nn == Big(Dot(n, n)) dn == Dot(d, n)
                         IN Cmp(td * dn * dn, tn * dd * nn)
And3(a, b) == IF a < b THEN a ELSE b
Max3(S) == IF 2 \in S THEN 2 ELSE IF 1 \in S THEN 1 ELSE 0
(* is point i admitted by the query's restriction?  2 yes, 1 undecided, 0 no   *)
Admit(q, i) ==
    LET p == pts[i] d == Dif(q.x, p.x) dd == Dot(d, d) IN
    CASE q.k = "qx" -> 2
      [] q.k = "qi" -> IF i = q.p THEN 0 ELSE 2
      [] q.k = "qe" -> IF \E j \in 1..Len(q.ex) : q.ex[j] = i THEN 0 ELSE 2
      [] q.k = "qs" -> IF 2 * dd < q.tol THEN 0 ELSE 2 - SinOver(d, p.n, q.tn, q.td)
      [] q.k = "qn" -> IF dd = 0 THEN 0 ELSE 2 - And3(SinOver(d, p.n, q.tn, q.td), SinOver(d, q.n, q.tn, q.td))
      [] q.k = "qm" -> 2 - And3(IF dd = 0 THEN 2 ELSE SinOver(d, p.n, q.tn, q.td),
                                Max3({ CosOver(q.ns[j], p.n, q.tn, q.td) : j \in 1..Len(q.ns) }))
      [] q.k = "qt" -> IF 2 * dd < q.tol THEN 0 ELSE 2 - CosOver(d, p.n, q.tn, q.td)
      [] q.k = "qd" -> IF Len(q.n) = 0 \/ Dot(d, q.n) <= 0 THEN 2 ELSE 0
      [] q.k = "qp" -> IF i = q.p THEN 0 ELSE IF Len(q.n) = 0 \/ Dot(d, q.n) <= 0 THEN 2 ELSE 0
(* q.b: twice the square of the bound, below zero for none; q.r: the answer (0 none); q.d: its squared distance *)
Nearest(q) ==
    IF q.r = 0 THEN IF q.d # -1 THEN "the bound moved although nothing was found"
                    ELSE IF \E i \in 1..N : (q.b < 0 \/ 2 * D2(q.x, pts[i].x) < q.b) /\ Admit(q, i) = 2 THEN "a point within the bound was missed"
                    ELSE ""
    ELSE IF ~(q.r \in 1..N) THEN "the answer is no point"
    ELSE IF Admit(q, q.r) = 0 THEN "the answer is not admitted"
    ELSE IF D2(q.x, pts[q.r].x) # q.d THEN "the distance is not that of the answer"
    ELSE IF q.b >= 0 /\ ~(2 * q.d < q.b) THEN "the answer is not closer than the bound"
    ELSE IF \E i \in 1..N : D2(q.x, pts[i].x) < q.d /\ Admit(q, i) = 2 THEN "a closer point was missed"
    ELSE ""
(* q.b: twice the square of the radius; q.s: the answers                        *)
InRange(q) ==
    LET S == { q.s[k] : k \in 1..Len(q.s) } IN
    IF Cardinality(S) # Len(q.s) THEN "a point is listed twice"
    ELSE IF ~(S \subseteq 1..N) THEN "an answer is no point"
    ELSE IF \E i \in S : 2 * D2(q.x, pts[i].x) > q.b THEN "a point outside the sphere is listed"
    ELSE IF \E i \in 1..N : 2 * D2(q.x, pts[i].x) < q.b /\ ~(i \in S) THEN "a point inside the sphere is missing"
    ELSE ""
Judge(q) == IF q.k = "R" THEN InRange(q) ELSE Nearest(q)
=============================================================================
