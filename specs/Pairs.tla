------------------------------- MODULE Pairs -------------------------------
(* V07.  Surface seeds are the mirrored intersection points of overlapping    *)
(* spheres, all of them and nothing else, and no seed is inside a sphere.     *)
(*                                                                            *)
(* Three spheres i < j < k, at least one of them on a face, that meet in two  *)
(* points p and q: when no fourth sphere holds p nor q, both are seeds; when  *)
(* fourth spheres hold both there is none; that a sphere holds one of the two *)
(* (a sliver) is forbidden once seeding has finished.                         *)
(*                                                                            *)
(* Lengths of an event are integers in a unit of its own, 1/20000 of the      *)
(* biggest of its radii.  J.n: number of seeds, J.m: number of surface seeds. *)
EXTENDS Geo, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, last, used, seen, bad
vars == << job, l, last, used, seen, bad >>
J == Jobs[job]
Ev == J.ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ last = << 0, 0, 0 >> /\ used = {} /\ seen = 0 /\ bad = ""

Slack(v) == 2 * (Abs(v[1]) + Abs(v[2]) + Abs(v[3])) + 4
On(v, r)     == Abs(Norm2(v) - r * r) <= Slack(v) + 2 * r
Inside(v, r) == Norm2(v) + Slack(v) < r * r
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))

(* e.t the spheres, e.k their kinds, e.r their radii; e.p and e.q the two     *)
(* points seen from the centres of the three: e.p[m] = p - centre m.          *)
(* e.wp, e.wq: <<vector from a fourth sphere, radius>>, the sphere nearest to *)
(* holding the point; << >> when there is no other sphere near.               *)
(* e.sp, e.sq: <<seed, offset from the point in 1e-6 of a radius, size>>.     *)
Triple(e) ==
    LET hint == /\ \A m \in 1..3 : On(e.p[m], e.r[m]) /\ On(e.q[m], e.r[m])
                /\ \A m, n \in 1..3 : MaxAbs(Sub(Sub(e.p[m], e.q[m]), Sub(e.p[n], e.q[n]))) <= 4
                (* the mirror plane: p - q is perpendicular to the centres *)
                /\ \A m \in 2..3 : LET d == Sub(e.p[m], e.p[1]) h == Sub(e.p[1], e.q[1])
                                  IN Abs(Dot(d, h)) <= Slack(d) + Slack(h)
        cov(w) == w # << >> /\ Inside(w[1], w[2])
        clear(w) == w = << >> \/ ~cov(w)
        cp == cov(e.wp)
        cq == cov(e.wq)
        seed(s) == s[1] \in 1..J.m /\ s[2] <= 20
        rmin == Min2(e.r[1], Min2(e.r[2], e.r[3]))
    IN
    /\ last' = e.t /\ UNCHANGED seen
    /\ used' = IF ~cp /\ ~cq THEN used \cup {e.sp[1], e.sq[1]} ELSE used
    /\ bad' = IF ~Before(last, e.t) \/ ~hint THEN "bad hint"
              ELSE IF ~ \E m \in 1..3 : e.k[m] = 2 THEN "bad hint"
              ELSE IF cp /\ cq THEN ""
              ELSE IF (cp /\ clear(e.wq)) \/ (cq /\ clear(e.wp)) THEN "one of two mirrored points is inside a sphere"
              ELSE IF ~seed(e.sp) \/ ~seed(e.sq) THEN "the intersection of three spheres has no seed"
              ELSE IF e.sp[1] = e.sq[1] \/ {e.sp[1], e.sq[1]} \cap used # {} THEN "a seed serves two intersection points"
              ELSE IF e.sp[3] \notin 1..rmin + 2 \/ e.sq[3] \notin 1..rmin + 2 THEN "a surface seed is bigger than one of its spheres"
              ELSE ""

(* Seeds J.m+1 .. J.m+J.a were added on the circle of two edge spheres.        *)
(* seed e.i: e.on spheres pass through it; e.w <<vector, radius>> of the      *)
(* sphere it is deepest in; e.s the distance to the nearest other surface     *)
(* seed in 1e-8 of its size.                                                  *)
Seed(e) ==
    /\ seen' = seen + 1 /\ UNCHANGED << last, used >>
    /\ bad' = IF e.i # seen + 1 THEN "seeds out of order"
              ELSE IF Inside(e.w[1], e.w[2]) THEN "a seed is inside a sphere"
              ELSE IF e.i <= J.m /\ e.on < 3 THEN "a surface seed is on fewer than three spheres"
              ELSE IF e.i > J.m /\ e.i <= J.m + J.a /\ e.on < 2 THEN "an edge seed is not on two spheres"
              ELSE IF e.i <= J.m + J.a /\ e.s < 100 THEN "a surface seed is listed twice"
              ELSE ""
Done(e) ==
    /\ UNCHANGED << last, used, seen >>
    /\ bad' = IF seen # J.n THEN "seeds not checked"
              ELSE IF used # 1..J.m THEN "a surface seed belongs to no three spheres" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "triple" -> Triple(e)
               [] e.e = "seed"   -> Seed(e)
               [] e.e = "done"   -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
