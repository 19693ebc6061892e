------------------------------ MODULE Interior ------------------------------
(* V08.  Seeds placed in the interior keep their distance, have gradual and   *)
(* bounded sizes, and leave no hole.                                          *)
(*                                                                            *)
(* The interior of a voxel model is a list of boxes.  A stack machine splits  *)
(* boxes into eight and closes a box by naming a ball that holds all of it:   *)
(* the ball of K times its size around a seed (s > 0), or a protecting sphere *)
(* (s < 0).  All boxes closed means that no point outside the protecting      *)
(* spheres is farther than K sizes from every seed.                           *)
(* J.x seeds (quantised), J.h their sizes, J.c, J.r the protecting spheres,   *)
(* all in 1/20000 of the model's extent; J.b the boxes <<lo, hi>>; J.n number *)
(* of seeds; the first J.m of them belong to the surface; J.lip in 1/1000;    *)
(* J.bc the component of every box.                                           *)
EXTENDS Geo, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, stack, nb, seen, lab, bad
vars == << job, l, stack, nb, seen, lab, bad >>
J == Jobs[job]
Ev == J.ev
K == 4
TOL == 4
Init == job \in 1..Len(Jobs) /\ l = 1 /\ stack = << >> /\ nb = 0 /\ seen = Jobs[job].m /\ lab = {} /\ bad = ""

Box(e) == /\ stack' = << J.b[nb + 1] >> \o stack /\ nb' = nb + 1 /\ UNCHANGED << seen, lab >>
          /\ bad' = IF stack # << >> THEN "certificate: pieces left over" ELSE ""
Halves(b, m) == LET c == (b[1][m] + b[2][m]) \div 2 IN << << b[1][m], c >>, << c, b[2][m] >> >>
Split(e) ==
    LET b == stack[1]
        x == Halves(b, 1) y == Halves(b, 2) z == Halves(b, 3)
        sub(i) == LET p == x[1 + (i % 2)] q == y[1 + ((i \div 2) % 2)] r == z[1 + (i \div 4)]
                  IN << << p[1], q[1], r[1] >>, << p[2], q[2], r[2] >> >>
    IN /\ stack' = [i \in 1..8 |-> sub(i - 1)] \o Tail(stack) /\ UNCHANGED << nb, seen, lab >> /\ bad' = ""
Far(b, c) == LET d(m) == Max2(Abs(b[1][m] - c[m]), Abs(b[2][m] - c[m])) IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
Holds(s, b) == IF s > 0 THEN LET R == Min2(30000, K * J.h[s] + TOL) IN Far(b, J.x[s]) <= R * R
               ELSE LET R == Min2(30000, J.r[-s] + TOL) IN Far(b, J.c[-s]) <= R * R
Leaf(e) ==
    /\ stack' = SubSeq(stack, Len(e.s) + 1, Len(stack)) /\ UNCHANGED << nb, seen, lab >>
    /\ bad' = IF \E k \in 1..Len(e.s) : e.s[k] = 0 \/ ~Holds(e.s[k], stack[k]) THEN "a hole: a part of the model is far from every seed" ELSE ""

(* interior seed e.i with size e.h, in a unit of its own; e.max, e.sz as for  *)
(* the spheres: the maximum radius, the closest points of the sizing file;    *)
(* e.k the box that holds it                                                  *)
In(x, b) == \A m \in 1..3 : b[1][m] - TOL <= x[m] /\ x[m] <= b[2][m] + TOL
Size(e) ==
    /\ seen' = seen + 1 /\ UNCHANGED << stack, nb >>
    /\ lab' = IF e.k = 0 THEN lab ELSE lab \cup {<< e.g, J.bc[e.k] >>}
    /\ bad' = IF e.i # seen + 1 THEN "bad hint"
              ELSE IF e.h <= 0 THEN "an interior seed without size"
              ELSE IF e.g <= 0 \/ (e.k = 0 /\ J.b # << >>) THEN "an interior seed outside the model"
              ELSE IF e.k > 0 /\ ~In(J.x[e.i], J.b[e.k]) THEN "bad hint"
              ELSE IF e.k > 0 /\ \E p \in lab : p[1] = e.g /\ p[2] # J.bc[e.k] THEN "an interior seed carries the label of another component"
              ELSE IF e.max > 0 /\ e.h > e.max + 1 THEN "an interior seed larger than the maximum radius"
              ELSE IF e.sz # << >> /\ ~ \E k \in 1..Len(e.sz) : /\ \A m \in 1..Len(e.sz) : e.sz[k][1] <= e.sz[m][1] + 1
                                                                /\ e.h <= e.sz[k][2] + 1
                   THEN "an interior seed larger than the sizing file allows"
              ELSE ""
(* seeds e.i (interior) and e.j at distance e.d along e.v, sizes e.h *)
Pair(e) ==
    /\ UNCHANGED << stack, nb, seen, lab >>
    /\ bad' = IF e.i <= J.m \/ e.i = e.j \/ Abs(e.d * e.d - Norm2(e.v)) > 2 * e.d + 4 * (Abs(e.v[1]) + Abs(e.v[2]) + Abs(e.v[3])) + 8 THEN "bad hint"
              ELSE IF e.d + 3 < Min2(e.h[1], e.h[2]) THEN "two seeds are closer than their sizes"
              ELSE IF e.d + 3 < 2 * Max2(e.h[1], e.h[2]) /\ (Abs(e.h[1] - e.h[2]) - 3) * 1000 > J.lip * e.d THEN "sizes of two seeds grow faster than the Lipschitz constant"
              ELSE ""
(* seed e.i at distance e.d along e.v from a protecting sphere of radius e.r  *)
Out(e) ==
    /\ UNCHANGED << stack, nb, seen, lab >>
    /\ bad' = IF e.i <= J.m \/ Abs(e.d * e.d - Norm2(e.v)) > 2 * e.d + 4 * (Abs(e.v[1]) + Abs(e.v[2]) + Abs(e.v[3])) + 8 THEN "bad hint"
              ELSE IF e.d + 3 < e.r THEN "an interior seed inside a protecting sphere"
              ELSE ""
Done(e) == /\ UNCHANGED << stack, nb, seen, lab >>
           /\ bad' = IF stack # << >> \/ nb # Len(J.b) \/ seen # J.n THEN "bad hint" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "box"   -> Box(e)
               [] e.e = "split" -> Split(e)
               [] e.e = "leaf"  -> Leaf(e)
               [] e.e = "size"  -> Size(e)
               [] e.e = "pair"  -> Pair(e)
               [] e.e = "out"   -> Out(e)
               [] e.e = "done"  -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, top |-> IF stack = << >> THEN << >> ELSE stack[1], ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
