------------------------------ MODULE Features ------------------------------
(* Sharp edges and corners of a triangulated complex with integer vertices.   *)
(* An edge is sharp unless exactly two faces meet there at an angle no        *)
(* sharper than the smoothing angle; a vertex is a corner when the sharp      *)
(* edges at it are one, three or more, or two that turn by more than the      *)
(* smoothing angle.  The cosine of the smoothing angle is                     *)
(* sg * sqrt(tn/td); verdicts are 2 yes, 0 no, 1 undecided (within tm).       *)
EXTENDS Integers, Sequences, FiniteSets
Sub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(n) == LET g == Gcd(Gcd(Abs(n[1]), Abs(n[2])), Abs(n[3])) IN IF g = 0 THEN n ELSE << n[1] \div g, n[2] \div g, n[3] \div g >>
Normal(V, f) == Reduce(Cross(Sub(V[f[2]], V[f[1]]), Sub(V[f[3]], V[f[1]])))
(* is dot / sqrt(nn) below sg * sqrt(tn/td)?                                   *)
Below(dot, nn, t) ==
    LET a == t.td * (dot * dot) b == t.tn * nn m == t.tm * nn
        lt(x, y) == IF x + m < y THEN 2 ELSE IF x > y + m THEN 0 ELSE 1
    IN IF dot < 0 /\ t.sg > 0 THEN (IF b + a > m THEN 2 ELSE 1)
       ELSE IF dot >= 0 /\ t.sg < 0 THEN (IF b + a > m THEN 0 ELSE 1)
       ELSE IF t.sg > 0 THEN lt(a, b) ELSE 2 - lt(a, b)
(* all undirected edges of the faces F as << a, b >> with a < b                *)
Pair(a, b) == IF a < b THEN << a, b >> ELSE << b, a >>
EdgesOf(f) == { Pair(f[1], f[2]), Pair(f[2], f[3]), Pair(f[3], f[1]) }
Edges(F) == UNION { EdgesOf(F[k]) : k \in 1..Len(F) }
Around(F, e) == { k \in 1..Len(F) : e \in EdgesOf(F[k]) }
SharpEdge(V, F, Nm, t, e) ==
    LET S == Around(F, e) IN
    IF Cardinality(S) # 2 THEN 2
    ELSE LET i == CHOOSE k \in S : TRUE j == CHOOSE k \in S : k # i
         IN Below(Dot(Nm[i], Nm[j]), Dot(Nm[i], Nm[i]) * Dot(Nm[j], Nm[j]), t)
(* corner verdict of vertex v given the sharp edges E                          *)
Corner(V, E, t, v) ==
    LET A == { e \in E : e[1] = v \/ e[2] = v } k == Cardinality(A) IN
    IF k = 0 THEN 0 ELSE IF k # 2 THEN 2
    ELSE LET e == CHOOSE x \in A : TRUE g == CHOOSE x \in A : x # e
             other(x) == IF x[1] = v THEN x[2] ELSE x[1]
             u == Reduce(Sub(V[v], V[other(e)])) w == Reduce(Sub(V[other(g)], V[v]))
         IN Below(Dot(u, w), Dot(u, u) * Dot(w, w), t)
=============================================================================
