------------------------------ MODULE Spheres ------------------------------
(* V05.  The protecting spheres of a run against every bound on their size.   *)
(* Kinds: 0 corner, 1 edge, 2 surface.  Lengths in an event are in a unit of  *)
(* its own, chosen so that the largest is about 20000 (4000 for "clear").     *)
EXTENDS Geo, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, n, bad
vars == << job, l, n, bad >>
J == Jobs[job]
Ev == J.ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ n = << 0, 0, 0 >> /\ bad = ""

(* A sphere: radius e.r, the run's maximum radius e.max (0: none), and the    *)
(* closest points of the sizing file as pairs <<distance, size>>.             *)
Sphere(e) ==
    /\ n' = [n EXCEPT ![e.k + 1] = @ + 1]
    /\ bad' = IF e.r <= 0 THEN "a sphere without radius"
              ELSE IF e.max > 0 /\ e.r > e.max + 1 THEN "a sphere larger than the maximum radius"
              ELSE IF e.sz # << >> /\ ~ \E k \in 1..Len(e.sz) : /\ \A m \in 1..Len(e.sz) : e.sz[k][1] <= e.sz[m][1] + 1
                                                                /\ e.r <= e.sz[k][2] + 1
                   THEN "a sphere larger than the sizing file allows"
              ELSE ""
(* The closest point, at e.v from the centre, of a face whose plane does not  *)
(* hold the centre: the sphere takes at most 2/5 of the way to it.  The code  *)
(* sees the face as a cloud of random points: e.h is six times their mean     *)
(* spacing, the farthest the nearest of them may be from the closest point.   *)
Clear(e) ==
    /\ UNCHANGED n
    /\ bad' = IF 100 * e.r * e.r <= 16 * (Norm2(e.v) + e.h * e.h) + (Norm2(e.v) \div 10) THEN "" ELSE "a sphere reaches too far towards another face"
(* Two spheres i, j at distance e.d (checked against the vector e.v): the     *)
(* bigger one respects the Lipschitz constant J.lip / 1000.  It is owed       *)
(* between all corners, by every sphere to the spheres of stronger kinds, and *)
(* between two edge or two surface spheres when j is within twice the radius. *)
Lip(e) ==
    LET owed == \/ e.j < e.i \/ (e.i = 0 /\ e.j = 0)
                \/ e.d + 3 < 2 * e.ri
    IN
    /\ UNCHANGED n
    /\ bad' = IF Abs(e.d * e.d - Norm2(e.v)) > 2 * e.d + 4 * (Abs(e.v[1]) + Abs(e.v[2]) + Abs(e.v[3])) + 8 THEN "bad hint"
              ELSE IF owed /\ (e.ri - e.rj - 4) * 1000 > J.lip * e.d THEN "sizes of two spheres grow faster than the Lipschitz constant"
              ELSE IF e.i = 0 /\ e.j = 0 /\ 5 * e.ri > 2 * e.d + 20 THEN "two corner spheres are too close"
              ELSE ""
Done(e) == /\ UNCHANGED n
           /\ bad' = IF n = e.n THEN "" ELSE "spheres are missing"
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "sphere" -> Sphere(e)
               [] e.e = "clear"  -> Clear(e)
               [] e.e = "lip"    -> Lip(e)
               [] e.e = "done"   -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
