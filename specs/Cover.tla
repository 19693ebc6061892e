------------------------------- MODULE Cover -------------------------------
(* V06.  The protecting spheres of a run cover the input surface.             *)
(*                                                                            *)
(* A stack machine checks a covering certificate.  Every triangle of the      *)
(* input is pushed once; a piece on top of the stack is either split at the   *)
(* midpoints of its sides or closed by naming one sphere that holds all of    *)
(* its corners (a sphere is convex, so it holds the piece).  Sharp edges are  *)
(* segments, closed by edge or corner spheres only.  All triangles and sharp  *)
(* edges closed means: every point is covered.                                *)
(*                                                                            *)
(* One unit is 1/20000 of the model's extent; TOL absorbs the rounding.       *)
(* Job: p points, t triangles, x sharp edges (pairs of points), c centres,    *)
(* r radii, k kinds (0 corner, 1 edge, 2 surface), th threads.                *)
EXTENDS Geo, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, stack, nt, nx, seen, bad
vars == << job, l, stack, nt, nx, seen, bad >>
J == Jobs[job]
Ev == J.ev
TOL == 4
Init == job \in 1..Len(Jobs) /\ l = 1 /\ stack = << >> /\ nt = 0 /\ nx = 0 /\ seen = 0 /\ bad = ""

Mid(a, b) == << (a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2 >>
Push(ps) == ps \o stack
Pop == Tail(stack)

Tri(e) ==
    /\ stack' = Push(<< [i \in 1..3 |-> J.p[J.t[nt + 1][i]]] >>) /\ nt' = nt + 1
    /\ UNCHANGED << nx, seen >>
    /\ bad' = IF stack # << >> THEN "certificate: pieces left over" ELSE ""
Edge(e) ==
    /\ stack' = Push(<< [i \in 1..2 |-> J.p[J.x[nx + 1][i]]] >>) /\ nx' = nx + 1
    /\ UNCHANGED << nt, seen >>
    /\ bad' = IF stack # << >> THEN "certificate: pieces left over" ELSE ""
Split(e) ==
    LET q == stack[1] IN
    /\ UNCHANGED << nt, nx, seen >> /\ bad' = ""
    /\ stack' = (IF Len(q) = 2 THEN << << q[1], Mid(q[1], q[2]) >>, << Mid(q[1], q[2]), q[2] >> >>
                 ELSE LET a == Mid(q[1], q[2]) b == Mid(q[2], q[3]) c == Mid(q[3], q[1])
                      IN << << q[1], a, c >>, << a, q[2], b >>, << c, b, q[3] >>, << a, b, c >> >>) \o Pop
(* A surface sphere must hold the piece within its covered core, 0.9165 of   *)
(* its radius, and so must an edge sphere hold a part of an edge (0.866);     *)
(* corner spheres, and edge spheres on faces, count in full.                  *)
Reach(s, q) == IF J.k[s] = 2 THEN (J.r[s] * 9166) \div 10000 + 1
               ELSE IF J.k[s] = 1 /\ Len(q) = 2 THEN (J.r[s] * 8661) \div 10000 + 1 ELSE J.r[s]
Holds(s, x, q) == Norm2(Sub(x, J.c[s])) <= (Reach(s, q) + TOL) * (Reach(s, q) + TOL)
(* close the pieces on top of the stack, one sphere each *)
Leaf(e) ==
    /\ UNCHANGED << nt, nx, seen >>
    /\ stack' = SubSeq(stack, Len(e.s) + 1, Len(stack))
    /\ bad' = IF \E k \in 1..Len(e.s) :
                    LET s == e.s[k] q == stack[k] IN
                    s = 0 \/ (Len(q) = 2 /\ J.k[s] = 2) \/ \E i \in 1..Len(q) : ~Holds(s, q[i], q)
              THEN (IF Len(stack[1]) = 2 THEN "a part of a sharp edge is in no edge or corner sphere"
                    ELSE "a part of the surface is in no sphere")
              ELSE ""

(* Sphere e.i lies on its element: a surface sphere on triangle e.t with      *)
(* barycentric coordinates e.b / 10000, an edge sphere on sharp edge e.t, a   *)
(* corner sphere on point e.t.  e.off is its distance from the element, in    *)
(* 1e-6 of the radius.                                                        *)
OnElement(e) ==
    LET at(ps) == [m \in 1..3 |-> SumSeq([n \in 1..Len(ps) |-> (e.b[n] * (ps[n][m] \div 16)) \div 625
                                                              + (e.b[n] * (ps[n][m] % 16)) \div 10000])]
        ps == IF J.k[e.i] = 2 THEN [n \in 1..3 |-> J.p[J.t[e.t][n]]]
              ELSE IF J.k[e.i] = 1 THEN [n \in 1..2 |-> J.p[J.x[e.t][n]]] ELSE << J.p[e.t] >>
        x == at(ps)
    IN
    /\ UNCHANGED << stack, nt, nx >> /\ seen' = seen + 1
    /\ bad' = IF e.i # seen + 1 THEN "spheres out of order"
              ELSE IF e.t = 0 \/ Abs(e.off) > 20 THEN "a sphere's centre is not on its element"
              ELSE IF \E n \in 1..Len(e.b) : e.b[n] < -1 THEN "a sphere's centre is outside its element"
              ELSE IF Abs(SumSeq(e.b) - 10000) > 3 \/ MaxAbs(Sub(x, J.c[e.i])) > 8 THEN "bad hint"
              ELSE ""

(* Separation: sphere i's centre and sphere j, lengths in units of their own. *)
Sep(e) ==
    LET f == IF e.j = 1 THEN 866 ELSE 916          \* the covered core of an edge / a surface sphere
        big == IF J.th > 1 /\ e.i = 2 THEN Min2(e.ri, e.rj) ELSE Max2(e.ri, e.rj)
    IN
    /\ UNCHANGED << stack, nt, nx, seen >>
    /\ bad' = IF Abs(e.d * e.d - Norm2(e.v)) > 2 * e.d + 4 * (Abs(e.v[1]) + Abs(e.v[2]) + Abs(e.v[3])) + 8 THEN "bad hint"
              ELSE IF e.j < e.i /\ e.d + 4 < e.rj THEN "a centre inside a sphere of a sharper feature"
              ELSE IF e.j = e.i /\ e.d * 1000 + 4000 < f * big THEN "a centre deep inside a sphere of its kind"
              ELSE ""
Done(e) ==
    /\ UNCHANGED << stack, nt, nx, seen >>
    /\ bad' = IF stack # << >> \/ nt # Len(J.t) \/ nx # Len(J.x) THEN "certificate: not everything was covered"
              ELSE IF seen # Len(J.r) THEN "spheres not checked" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "tri"   -> Tri(e)
               [] e.e = "edge"  -> Edge(e)
               [] e.e = "split" -> Split(e)
               [] e.e = "leaf"  -> Leaf(e)
               [] e.e = "on"    -> OnElement(e)
               [] e.e = "sep"   -> Sep(e)
               [] e.e = "done"  -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, top |-> IF stack = << >> THEN << >> ELSE stack[1], ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
