---------------------------- MODULE KernelTrace -----------------------------
(* Recorded geometric constructions against Kernel.                            *)
EXTENDS Kernel, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, bad
vars == << job, l, bad >>
Ev == Jobs[job].ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ bad = ""
Big(q) == \E d \in 1..3 : Abs(q[d]) > 4000000
Proj(e) == IF e.kept # 1 THEN "a projection changed its input"
           ELSE IF Big(e.q) \/ ~Combines(e.q, e.x, e.w) THEN "a projection is not on its element"
           ELSE IF ~Closest(e.p, e.q, e.x, e.w) THEN "a projection is not the closest point"
           ELSE IF ~IsLength(e.d, e.r) THEN "the distance of a projection is wrong" ELSE ""
Line(e) == IF e.kept # 1 THEN "a projection changed its input"
           ELSE IF Big(e.q) \/ ~OnLine(e.q, e.a, e.u) THEN "a projection is not on its line"
           ELSE IF ~Foot(e.p, e.q, e.u) THEN "a projection on a line is not the closest point"
           ELSE IF ~IsLength(e.d, e.r) THEN "the distance of a projection is wrong" ELSE ""
Area(e) == LET c == Cross(Sub(e.x[2], e.x[1]), Sub(e.x[3], e.x[1])) IN
           IF e.a < 0 \/ e.a > 40000 \/ Abs(e.a * e.a - 10000 * Dot(c, c)) > 2 * e.a + 4 THEN "a triangle's area is wrong"
           ELSE IF (e.ok = 1) # (c # Zero) THEN "a degenerate triangle is not told from a proper one"
           ELSE IF e.ok = 1 /\ ~IsUnit(e.n, c) THEN "a triangle's normal is wrong" ELSE ""
Cosine(e) == LET u == Sub(e.x, e.y) v == Sub(e.z, e.y) d == Dot(u, v) n == Dot(u, u) * Dot(v, v) IN
             IF n = 0 THEN "" 
             ELSE IF Abs(e.c) > 401 \/ (d > 0 /\ e.c < 0) \/ (d < 0 /\ e.c > 0) THEN "the cosine of an angle is wrong"
             ELSE IF Abs(e.c * e.c - ((160000 * d) \div n) * d) > 2 * Abs(e.c) + 2 + Abs(d) THEN "the cosine of an angle is wrong" ELSE ""
Angle(e) == IF e.x = 0 /\ e.y = 0 THEN (IF e.big = 1 THEN "" ELSE "the angle of the origin is not reported as a singularity")
            ELSE IF e.big = 1 \/ ~(e.t \in 0..6283) THEN "an angle is outside its range"
            ELSE IF Abs(e.x * e.s - e.y * e.c) > 2 * (Abs(e.x) + Abs(e.y)) \/ e.x * e.c + e.y * e.s <= 0 THEN "the angle of a point is wrong" ELSE ""
Dist(e) == IF ~IsLength(e.d, Mul(1000, Sub(e.x, e.y))) \/ e.p # Dot(e.x, e.y) THEN "a distance or a product is wrong" ELSE ""
Unit(e) == IF (e.ok = 1) # (e.x # Zero) THEN "a zero vector is not told from others"
           ELSE IF e.ok = 1 /\ ~IsUnit(e.n, e.x) THEN "a normalised vector is wrong" ELSE ""
(* the part of x off the axes ax                                               *)
NComp(e) == LET r == [d \in 1..3 |-> IF \E k \in 1..Len(e.ax) : e.ax[k] = d THEN 0 ELSE e.x[d]] IN
            IF (e.ret = 0) # (r # Zero) THEN "a vector within the basis is not reported"
            ELSE IF e.ret = 0 /\ ~IsUnit(e.n, r) THEN "a normal component is wrong" ELSE ""
(* centres that determine no point may leave one at infinity (rounding)        *)
Far(q) == \E d \in 1..3 : Abs(q[d]) > 10000000
Power(e) == LET c == [k \in 1..Len(e.c) |-> e.c[k]] IN
            IF e.kept # 1 THEN "a radical point's input was changed"
            ELSE IF \E k \in 1..Len(e.o) : e.o[k] = 0 /\ Independent(c) THEN "a radical point is reported missing"
            ELSE IF \E k \in 1..Len(e.o) : e.o[k] = 1 /\ (IF Far(e.q[k]) THEN Independent(c) ELSE ~EqualPower(e.q[k], c, e.r)) THEN "a radical point has unequal powers"
            ELSE IF \E k \in 1..Len(e.o) : e.o[k] = 1 /\ ~Far(e.q[k]) /\ ~InFlat(e.q[k], c) THEN "a radical point is off the flat of its centres" ELSE ""
Ovl1(e) == LET o == Overlap(e.s, e.t) IN IF (o = 2 /\ e.v = 0) \/ (o = 0 /\ e.v = 1) THEN "overlap of two spheres is misjudged" ELSE ""
Cover(e) == LET o == Covered(e.x, e.s, e.bn, e.bd) IN
            IF o = 2 /\ e.v = 0 THEN "a covered element is reported uncovered" ELSE IF o = 0 /\ e.v = 1 THEN "an uncovered element is reported covered" ELSE ""
Ovl(e) == LET R == { e.v[k] : k \in 1..Len(e.v) } IN
          IF Cardinality(R) # Len(e.v) THEN "an overlapping sphere is listed twice"
          ELSE IF ~(R \subseteq 1..Len(e.s)) THEN "an overlapping sphere is no sphere"
          ELSE IF \E k \in 1..Len(e.s) : (Overlap(e.s[k], e.t) = 2 /\ ~(k \in R)) \/ (Overlap(e.s[k], e.t) = 0 /\ k \in R) THEN "the overlapping spheres are wrong" ELSE ""
Lip(e) == IF ~LipOk(e.r, e.s, e.ln) THEN "sizes vary faster than the Lipschitz constant"
          ELSE IF ~LipMax(e.r, e.s, e.ln) THEN "a sphere was shrunk more than needed"
          ELSE IF (e.v = 1) # (\E k \in 1..Len(e.s) : e.r[k] < 200 * e.s[k][4]) THEN "shrinking is misreported" ELSE ""
(* sizes of spheres nearer than twice the radius only                          *)
LipNear(r2, s, ln) == \A i, j \in 1..Len(s) : i # j /\ 10000 * D2(s[i], s[j]) <= r2[i] * r2[i] => LipCmp(r2[i] - r2[j], ln, D2(s[i], s[j])) <= Slack(r2[i] - r2[j])
Near(e) == IF ~LipNear(e.r, e.s, e.ln) THEN "sizes of near spheres vary faster than the Lipschitz constant"
           ELSE IF ~LipMax(e.r, e.s, e.ln) THEN "a sphere was shrunk more than needed"
           ELSE IF (e.v = 1) # (\E k \in 1..Len(e.s) : e.r[k] < 200 * e.s[k][4]) THEN "shrinking is misreported" ELSE ""
(* the spheres, except some, that contain a point                              *)
Covering(e) == LET R == { e.v[k] : k \in 1..Len(e.v) } X == { e.ex[k] : k \in 1..Len(e.ex) } IN
          IF Cardinality(R) # Len(e.v) \/ ~(R \subseteq 1..Len(e.s)) THEN "a covering sphere is listed twice or is no sphere"
          ELSE IF R \cap X # {} THEN "a sphere to be left out is listed as covering"
          ELSE IF \E k \in (1..Len(e.s)) \ X : LET w == Within(e.x, e.s[k], e.bn, e.bd) IN (w = 2 /\ ~(k \in R)) \/ (w = 0 /\ k \in R) THEN "the covering spheres are wrong"
          ELSE IF (e.c = 1) # (R # {}) THEN "covering is misreported" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN bad' =
           CASE e.e = "proj" -> Proj(e) [] e.e = "line" -> Line(e) [] e.e = "area" -> Area(e) [] e.e = "cos" -> Cosine(e)
             [] e.e = "angle" -> Angle(e) [] e.e = "dist" -> Dist(e) [] e.e = "unit" -> Unit(e) [] e.e = "ncomp" -> NComp(e)
             [] e.e = "power" -> Power(e) [] e.e = "ovl1" -> Ovl1(e) [] e.e = "cover" -> Cover(e) [] e.e = "ovl" -> Ovl(e) [] e.e = "lip" -> Lip(e)
             [] e.e = "near" -> Near(e) [] e.e = "covering" -> Covering(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
