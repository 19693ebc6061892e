------------------------------- MODULE Kernel -------------------------------
(* Geometric constructions on integer inputs; results are quantised: points   *)
(* in 1/K, and judged by linear conditions that hold of the exact result.     *)
EXTENDS Integers, Sequences, FiniteSets
K == 100000
Abs(x) == IF x < 0 THEN -x ELSE x
Sub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
L1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
Mul(k, a) == << k * a[1], k * a[2], k * a[3] >>
Zero == << 0, 0, 0 >>
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* q (1/K) is the combination of the points x with the weights w (1/K)         *)
Combines(q, x, w) ==
    /\ \A k \in 1..Len(w) : w[k] >= -3
    /\ Abs(SumTo(w, Len(w)) - K) <= 3
    /\ \A d \in 1..3 : Abs(SumTo([k \in 1..Len(x) |-> w[k] * x[k][d]], Len(x)) - q[d]) <= 3 * (1 + SumTo([k \in 1..Len(x) |-> Abs(x[k][d])], Len(x)))
(* q is the point closest to p of the hull of x: moving from q's own corners   *)
(* towards any other corner does not come nearer to p                          *)
Closest(p, q, x, w) ==
    \A i \in { k \in 1..Len(x) : w[k] > 20 }, j \in 1..Len(x) :
        LET e == Sub(x[j], x[i]) IN Dot(Sub(Mul(K, p), q), e) <= 2 * L1(e) + 2
(* D (1/1000) is the length of r (1/1000)                                      *)
IsLength(D, r) == D >= 0 /\ D <= 40000 /\ Abs(D * D - Dot(r, r)) <= 2 * D + 2 * L1(r) + 4
OnLine(q, a, e) == LET c == Cross(Sub(q, Mul(K, a)), e) IN L1(c) <= 6 * L1(e)
Foot(p, q, e) == Abs(Dot(Sub(Mul(K, p), q), e)) <= 2 * L1(e)
(* N (1/10000) is the unit vector along c                                      *)
IsUnit(N, c) == L1(N) <= 30000 /\ L1(Cross(N, c)) <= 2 * L1(c) /\ Dot(N, c) > 0 /\ Abs(Dot(N, N) - 100000000) <= 40000
(* the powers of q (1/10000) to the spheres c, r agree                         *)
EqualPower(q, c, r) ==
    \A k \in 2..Len(c) : LET e == Sub(c[k], c[1]) IN
        Abs(2 * Dot(e, q) - 10000 * (Dot(c[k], c[k]) - Dot(c[1], c[1]) - r[k] * r[k] + r[1] * r[1])) <= 2 * L1(e) + 2
(* q lies in the flat through the centres                                      *)
InFlat(q, c) == LET r == Sub(q, Mul(10000, c[1])) IN
    CASE Len(c) = 2 -> LET e == Sub(c[2], c[1]) IN L1(Cross(r, e)) <= 3 * L1(e)
      [] Len(c) = 3 -> LET n == Cross(Sub(c[2], c[1]), Sub(c[3], c[1])) IN Abs(Dot(r, n)) <= 2 * L1(n)
      [] OTHER -> TRUE
Independent(c) ==
    CASE Len(c) = 2 -> c[1] # c[2]
      [] Len(c) = 3 -> Cross(Sub(c[2], c[1]), Sub(c[3], c[1])) # Zero
      [] Len(c) = 4 -> Dot(Cross(Sub(c[2], c[1]), Sub(c[3], c[1])), Sub(c[4], c[1])) # 0
D2(a, b) == Dot(Sub(a, b), Sub(a, b))
(* 2 yes, 0 no, 1 a tie: is x within sqrt(bn/bd) of the radius of s (c, r)      *)
Within(x, s, bn, bd) == LET a == bd * D2(x, s) b == bn * s[4] * s[4] IN IF a < b THEN 2 ELSE IF a > b THEN 0 ELSE 1
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
(* one sphere has all the points                                               *)
Covered(pts, sp, bn, bd) ==
    IF sp = << >> THEN 0
    ELSE MaxOf({ MinOf({ Within(pts[i], sp[k], bn, bd) : i \in 1..Len(pts) }) : k \in 1..Len(sp) })
Overlap(s, t) == LET a == D2(s, t) b == (s[4] + t[4]) * (s[4] + t[4]) IN IF a < b THEN 2 ELSE IF a > b THEN 0 ELSE 1
(* r2 (1/200) are the largest radii below r with the Lipschitz constant ln/10   *)
LipCmp(a, ln, d2) == IF a <= 0 THEN 0 ELSE LET m == ln * ln * d2 IN
                     IF m >= 14400 THEN -1 ELSE 100 * a * a - m * 40000      \* > 0: larger than allowed
Slack(a) == 400 * Abs(a) + 400
LipOk(r2, s, ln) == \A i, j \in 1..Len(s) : LET a == r2[i] - r2[j] IN LipCmp(a, ln, D2(s[i], s[j])) <= Slack(a)
LipMax(r2, s, ln) == \A i \in 1..Len(s) : r2[i] <= 200 * s[i][4] /\
    \E j \in 1..Len(s) : LET a == r2[i] - 200 * s[j][4] IN IF j = i THEN a = 0 ELSE a > 0 /\ LipCmp(a, ln, D2(s[i], s[j])) >= -Slack(a) /\ ln * ln * D2(s[i], s[j]) < 14400
=============================================================================
