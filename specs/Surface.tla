------------------------------ MODULE Surface ------------------------------
(* V18.  The reconstructed surface: a triangulation of the sphere centres     *)
(* that closes up, follows the creases and has the area of the input.         *)
(*                                                                            *)
(* The machine reads the vertices, then the triangles (named by their three   *)
(* spheres, in increasing order), then the edges with the triangles around    *)
(* each.  J.n spheres, J.tri triangles, J.sh[c] number of input faces at      *)
(* crease c, J.area[p] area of the input in plane p, in 1e-8 of the total     *)
(* (empty for curved models), J.k kinds of the spheres.                       *)
EXTENDS Geo, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, used, tri, area, inc, len, last, bad
vars == << job, l, used, tri, area, inc, len, last, bad >>
J == Jobs[job]
Ev == J.ev
Zero(n) == [k \in 1..n |-> 0]
Init == /\ job \in 1..Len(Jobs) /\ l = 1 /\ bad = ""
        /\ used = {} /\ tri = << >> /\ inc = 0 /\ last = << 0, 0 >>
        /\ area = Zero(Len(Jobs[job].area)) /\ len = Zero(Len(Jobs[job].sh))

(* vertex: the sphere e.s, e.off from its centre in 1e-6 of its radius *)
Vertex(e) ==
    /\ used' = used \cup {e.s} /\ UNCHANGED << tri, area, inc, len, last >>
    /\ bad' = IF e.s \notin 1..J.n \/ e.off > 20 THEN "a vertex of the surface is no sphere centre"
              ELSE IF e.s \in used THEN "a sphere centre is listed twice" ELSE ""

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
(* triangle: spheres e.t, the sides e.v as vectors 1->2, 2->3, 3->1 with the  *)
(* radii e.r in 1/10000 of the longest side, e.p the plane it lies in, e.h    *)
(* the farthest of its corners from that plane in 1e-6, e.a its area.         *)
Triangle(e) ==
    LET m(k) == (k % 3) + 1
        w == << Norm2(e.v[1]), Norm2(e.v[2]), Norm2(e.v[3]) >>
    IN
    /\ tri' = Append(tri, e.t) /\ UNCHANGED << used, inc, len, last >>
    /\ area' = IF e.p = 0 THEN area ELSE [area EXCEPT ![e.p] = @ + e.a]
    /\ bad' = IF ~(e.t[1] < e.t[2] /\ e.t[2] < e.t[3]) \/ ~(\A k \in 1..3 : e.t[k] \in used) THEN "a triangle does not join three spheres"
              ELSE IF tri # << >> /\ ~Less(tri[Len(tri)], e.t) THEN "a triangle occurs twice"
              ELSE IF MaxAbs(Add(Add(e.v[1], e.v[2]), e.v[3])) > 3 THEN "bad hint"
              ELSE IF \E k \in 1..3 : w[k] >= (e.r[k] + e.r[m(k)] + 3) * (e.r[k] + e.r[m(k)] + 3) THEN "a triangle joins spheres that do not overlap"
              ELSE IF ~ \E k \in 1..3 : J.k[e.t[k]] = 2 THEN "a triangle without a centre on a face"
              ELSE IF J.area # << >> /\ (e.p = 0 \/ e.h > 20) THEN "a triangle of a flat model lies on no plane of it"
              ELSE ""
(* edge: spheres e.s, the triangles e.t around it, the crease e.c it runs     *)
(* along (0: none), e.l its length in 1e-7 of the crease's, e.off the largest *)
(* distance of its ends from the crease in 1e-6 of a radius                   *)
Edge(e) ==
    LET want == IF e.c = 0 THEN 2 ELSE J.sh[e.c] IN
    /\ inc' = inc + Len(e.t) /\ last' = e.s /\ UNCHANGED << used, tri, area >>
    /\ len' = IF e.c = 0 THEN len ELSE [len EXCEPT ![e.c] = @ + e.l]
    /\ bad' = IF ~(last[1] < e.s[1] \/ (last[1] = e.s[1] /\ last[2] < e.s[2])) THEN "bad hint"
              ELSE IF \E x \in 1..Len(e.t) : \/ ~ Range(e.s) \subseteq Range(tri[e.t[x]])
                                             \/ (x > 1 /\ e.t[x] <= e.t[x - 1]) THEN "bad hint"
              ELSE IF e.c # 0 /\ (e.off > 20 \/ \E k \in 1..2 : J.k[e.s[k]] = 2) THEN "bad hint"
              ELSE IF Len(e.t) # want THEN (IF e.c = 0 THEN "the surface is not closed at an edge" ELSE "wrong number of sheets at a crease")
              ELSE ""
Done(e) ==
    /\ UNCHANGED << used, tri, area, inc, len, last >>
    /\ bad' = IF used # 1..J.n THEN "a sphere centre is missing"
              ELSE IF Len(tri) # J.tri \/ inc # 3 * J.tri THEN "bad hint"
              ELSE IF \E p \in DOMAIN area : Abs(area[p] - J.area[p]) > J.tri + 4 THEN "the surface does not have the area of the input"
              ELSE IF \E c \in DOMAIN len : Abs(len[c] - 10000000) > 200 THEN "a crease is not followed from end to end"
              ELSE ""
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "v" -> Vertex(e)
               [] e.e = "t" -> Triangle(e)
               [] e.e = "x" -> Edge(e)
               [] e.e = "done" -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
