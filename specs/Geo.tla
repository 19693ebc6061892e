-------------------------------- MODULE Geo --------------------------------
(* Exact integer geometry of 3-vectors (sequences of three integers).        *)
(* TLC's integers are 32 bits wide and overflow is an error, so callers keep *)
(* differences of coordinates small; see the modules that use this one.      *)
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Sub(a, b)   == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Add(a, b)   == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Scale(k, a) == << k * a[1], k * a[2], k * a[3] >>
Dot(a, b)   == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Norm2(a)    == Dot(a, a)
Dist2(a, b) == Norm2(Sub(a, b))
Cross(a, b) == << a[2] * b[3] - a[3] * b[2],
                  a[3] * b[1] - a[1] * b[3],
                  a[1] * b[2] - a[2] * b[1] >>
Det(a, b, c) == Dot(a, Cross(b, c))
MaxAbs(a) == Max2(Abs(a[1]), Max2(Abs(a[2]), Abs(a[3])))
Vec0 == << 0, 0, 0 >>

(* The sphere through a, a+q1, a+q2, a+q3 has centre a + CircN/(2*CircD).    *)
CircD(q1, q2, q3) == Det(q1, q2, q3)
CircN(q1, q2, q3) ==
    Add(Add(Scale(Norm2(q1), Cross(q2, q3)), Scale(Norm2(q2), Cross(q3, q1))),
        Scale(Norm2(q3), Cross(q1, q2)))

(* Sign of the power of a+p with respect to that sphere, given D /= 0:       *)
(* |p|^2 - p.N/D, multiplied by |D|.                                          *)
SpherePower(p, N, D) == IF D > 0 THEN Norm2(p) * D - Dot(p, N)
                                 ELSE Dot(p, N) - Norm2(p) * D

Range(s) == { s[i] : i \in 1..Len(s) }
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE s[1] + SumSeq(Tail(s))
=============================================================================
