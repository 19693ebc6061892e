------------------------------- MODULE Space -------------------------------
(* The components of space of a model made of unit cells, or of a convex one. *)
(* A job record j holds  kind = "vox": d (cells per axis), m (material of the *)
(* cells -1..d, listed x first), or  kind = "planes": h (outward half-spaces  *)
(* <<normal, offset>>) and tol, below which a point is not judged.            *)
(* Component 1 is the unbounded outside; 0 means undecided.                   *)
EXTENDS Geo
Outside == 1
SpDX(j) == j.d[1] + 2
SpDY(j) == j.d[2] + 2
SpDZ(j) == j.d[3] + 2
SpNum(j, x, y, z) == 1 + (x + 1) + SpDX(j) * ((y + 1) + SpDY(j) * (z + 1))
SpNbr(j, k) ==
    LET DX == SpDX(j) DY == SpDY(j) DZ == SpDZ(j)
        x == (k - 1) % DX  y == ((k - 1) \div DX) % DY  z == (k - 1) \div (DX * DY)
    IN (IF x > 0 THEN { k - 1 } ELSE {}) \cup (IF x < DX - 1 THEN { k + 1 } ELSE {})
       \cup (IF y > 0 THEN { k - DX } ELSE {}) \cup (IF y < DY - 1 THEN { k + DX } ELSE {})
       \cup (IF z > 0 THEN { k - DX * DY } ELSE {}) \cup (IF z < DZ - 1 THEN { k + DX * DY } ELSE {})
RECURSIVE SpFlood(_, _)
SpFlood(j, c) ==         \* the least cell number reachable through equal material
    LET d == [k \in 1..Len(c) |-> LET S == { c[b] : b \in { b \in SpNbr(j, k) : j.m[b] = j.m[k] } } \cup { c[k] }
                                  IN CHOOSE x \in S : \A y \in S : x <= y]
    IN IF d = c THEN c ELSE SpFlood(j, d)
Components(j) == IF j.kind = "vox" THEN SpFlood(j, [k \in 1..Len(j.m) |-> k]) ELSE << >>
(* component of a point in 1/1000 units                                       *)
SpAt(j, comp, p) ==
    IF j.kind = "vox" THEN
        LET I(a, n) == IF a < 0 THEN -1 ELSE IF a >= n * 1000 THEN n ELSE a \div 1000
        IN comp[SpNum(j, I(p[1], j.d[1]), I(p[2], j.d[2]), I(p[3], j.d[3]))]
    ELSE LET s(h) == Dot(h[1], p) - h[2]
         IN IF \E k \in 1..Len(j.h) : Abs(s(j.h[k])) <= j.tol /\ \A m \in 1..Len(j.h) : s(j.h[m]) <= j.tol THEN 0
            ELSE IF \A k \in 1..Len(j.h) : s(j.h[k]) < 0 THEN 2 ELSE Outside
=============================================================================
