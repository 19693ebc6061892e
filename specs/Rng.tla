-------------------------------- MODULE Rng ---------------------------------
(* Generators as deterministic streams: what a generator gives depends only on *)
(* its seed and on what was asked of it since it was seeded; and the domains   *)
(* of the samplers.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
(* new draws vs continue the stream known of this seed from position p         *)
Agrees(known, p, vs) == \A k \in 1..Len(vs) : p + k <= Len(known) => known[p + k] = vs[k]
Extend(known, p, vs) == IF p + Len(vs) <= Len(known) THEN known
                        ELSE known \o SubSeq(vs, Len(known) - p + 1, Len(vs))
(* floor and ceiling of the coordinates against the box's corners              *)
InBox(fl, ce, lo, hi) == \A d \in 1..Len(lo) : lo[d] <= fl[d] /\ ce[d] <= hi[d]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
OnSphere(q, K, tol) == Abs(SumTo([d \in 1..Len(q) |-> q[d] * q[d]], Len(q)) - K * K) <= tol * K
(* p (in 1/W) is the combination of the corners x with weights w (in 1/W)      *)
InSimplex(p, x, w, W, tol) ==
    /\ \A k \in 1..Len(w) : w[k] >= -tol
    /\ Abs(SumTo(w, Len(w)) - W) <= tol
    /\ \A d \in 1..Len(p) : Abs(SumTo([k \in 1..Len(x) |-> w[k] * x[k][d]], Len(x)) - p[d]) <= tol * (1 + SumTo([k \in 1..Len(x) |-> Abs(x[k][d])], Len(x)))
(* n draws over cells of weights w: counts within eight standard deviations    *)
Fair(cn, w, n) == LET W == SumTo(w, Len(w)) IN
    \A k \in 1..Len(w) : LET d == W * cn[k] - n * w[k] IN
        IF w[k] = 0 THEN cn[k] = 0 ELSE Abs(d) <= 320000 /\ (Abs(d) \div 8) * (Abs(d) \div 8) <= n * W * w[k] + W * W
=============================================================================
