---------------------------- MODULE MonitorTrace ----------------------------
(* V13.  Runs that impose or generate monitoring points, against the promise  *)
(* of Monitor.tla.  A job holds the seeds s (in units of 1/12000 of the       *)
(* extent), their labels g, their places q in 1/1000 of a cell, the spheres   *)
(* c, r, and the model as in Space.  The trace names, for each request, the   *)
(* seed closest to it; being closest is judged here.                          *)
EXTENDS Space, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, comp, asked, imp, rows, bad
vars == << job, l, comp, asked, imp, rows, bad >>
J == Jobs[job]
Ev == J.ev
TOL == 3
Sq(x) == x * x
Init == /\ job \in 1..Len(Jobs) /\ l = 1 /\ comp = TLCEval(Components(Jobs[job])) /\ asked = << >> /\ imp = {} /\ rows = 0 /\ bad = ""
Here(o) == \A m \in 1..3 : Abs(o[m]) <= 2            \* an offset of at most 2e-9 of the extent
Closer(p, s, k) == Dist2(p, s) < Sq(Max2(0, k))
Far(p, s, k) == Dist2(p, s) > Sq(k)
Deep(p) == \E k \in 1..Len(J.c) : J.r[k] > TOL /\ Closer(p, J.c[k], J.r[k] - TOL)
Clear(p) == \A k \in 1..Len(J.c) : Far(p, J.c[k], J.r[k] + TOL)
(* no seed is closer to p than seed i, by more than the rounding              *)
RECURSIVE Isqrt(_, _, _)
Isqrt(n, a, b) == IF a >= b THEN a ELSE LET m == (a + b + 1) \div 2 IN IF m * m <= n THEN Isqrt(n, m, b) ELSE Isqrt(n, a, m - 1)
Nearest(p, i) == LET d == Isqrt(Dist2(p, J.s[i]), 0, 46000) IN ~ \E k \in 1..Len(J.s) : Closer(p, J.s[k], d - TOL)
(* the component of a point of the cell frame, 0 when it is near a wall       *)
Wall(q) == \E m \in 1..3 : LET f == q[m] % 1000 IN f < J.tolq \/ f > 1000 - J.tolq
At(q) == IF J.kind = "vox" THEN (IF Wall(q) THEN 0 ELSE SpAt(J, comp, q)) ELSE SpAt(J, comp, q)
(* e.p the point, e.q its place, e.at the closest seed, e.o the offset to it, *)
(* e.r its size, e.h the seed's size, both in 1e-8 of the requested size      *)
Req(e) ==
    LET c == At(e.q) here == Here(e.o) IN
    /\ asked' = Append(asked, [p |-> e.p, r |-> e.r, at |-> IF here THEN e.at ELSE 0])
    /\ imp' = IF here THEN imp \cup {e.at} ELSE imp
    /\ UNCHANGED rows
    /\ bad' = IF ~Nearest(e.p, e.at) THEN "bad hint"
              ELSE IF here /\ Deep(e.p) THEN "a requested point inside a protecting sphere is a seed"
              ELSE IF here /\ c = Outside THEN "a requested point outside the model is a seed"
              ELSE IF ~here /\ c > Outside /\ Clear(e.p) THEN "a requested point inside the model and outside the spheres is not a seed"
              ELSE IF here /\ e.at \in imp THEN "bad hint"
              ELSE IF here /\ Abs(e.h - 100000000) > 2 THEN "an imposed seed without the requested size"
              ELSE IF here /\ J.g[e.at] <= 0 THEN "an imposed seed with the label of the outside"
              ELSE IF here /\ c > Outside /\ \E k \in 1..Len(J.s) : J.g[k] = J.g[e.at] /\ ~(At(J.q[k]) \in {0, c}) THEN "an imposed seed with the label of another region"
              ELSE ""
(* seeds of the spheres touch them; the others are interior                   *)
Touches(k) == \E m \in 1..Len(J.c) : ~Closer(J.s[k], J.c[m], J.r[m] - TOL) /\ ~Far(J.s[k], J.c[m], J.r[m] + TOL)
Cleared(e) ==
    LET a == asked[e.i] IN
    /\ UNCHANGED << asked, imp, rows >>
    /\ bad' = IF a.at # 0 /\ \E k \in 1..Len(J.s) : k \notin imp /\ Closer(a.p, J.s[k], a.r - TOL) /\ ~Touches(k)
              THEN "an interior seed inside the sphere of an imposed one" ELSE ""
(* two interior seeds, not imposed, at distance e.d along e.v, with sizes e.h *)
Pair(e) ==
    /\ UNCHANGED << asked, imp, rows >>
    /\ bad' = IF e.i = e.j \/ {e.i, e.j} \cap imp # {} \/ Abs(e.d * e.d - Norm2(e.v)) > 2 * e.d + 4 * (Abs(e.v[1]) + Abs(e.v[2]) + Abs(e.v[3])) + 8 THEN "bad hint"
              ELSE IF e.d + 3 < Min2(e.h[1], e.h[2]) THEN "two interior seeds are closer than their sizes"
              ELSE IF e.d + 3 < 2 * Max2(e.h[1], e.h[2]) /\ (Abs(e.h[1] - e.h[2]) - 3) * 1000 > J.lip * e.d THEN "sizes of two interior seeds grow faster than the Lipschitz constant"
              ELSE ""
(* row e.i of the companion file: its offset e.a to the requested point, the  *)
(* seed e.of at its offset e.o, its size e.r against the request or the seed  *)
Row(e) ==
    LET a == asked[e.i] IN
    /\ rows' = rows + 1 /\ UNCHANGED << asked, imp >>
    /\ bad' = IF e.i # rows + 1 THEN "the companion file and the requests differ in number"
              ELSE IF a.at # 0 THEN (IF Here(e.a) /\ Abs(e.ra - 100000000) <= 2 THEN "" ELSE "the companion file does not repeat an imposed point")
              ELSE IF ~Here(e.o) \/ Abs(e.ro - 100000000) > 2 THEN "the companion file names something that is not a seed of the run"
              ELSE IF ~Nearest(a.p, e.of) THEN "the companion file does not name the closest seed"
              ELSE ""
(* a generated point: the seed e.of at its offset e.o, its size e.ro          *)
Gen(e) ==
    /\ rows' = rows + 1 /\ imp' = imp \cup {e.of} /\ UNCHANGED asked
    /\ bad' = IF ~Here(e.o) \/ Abs(e.ro - 100000000) > 2 THEN "a generated monitoring point is not a seed of the run"
              ELSE IF e.of \in imp THEN "a generated monitoring point is listed twice"
              ELSE IF e.of <= J.ns THEN "a generated monitoring point is a seed of the surface"
              ELSE IF J.g[e.of] <= 0 THEN "a generated monitoring point outside the model" ELSE ""
Done(e) == /\ UNCHANGED << asked, imp, rows >>
           /\ bad' = IF e.kind = "impose" /\ (Len(asked) # e.n \/ rows # e.n) THEN "the companion file and the requests differ in number"
                     ELSE IF e.kind = "generate" /\ rows # Min2(100, Len(J.s) - J.ns) THEN "the number of generated monitoring points" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED << job, comp >>
        /\ LET e == Ev[l] IN CASE e.e = "req" -> Req(e) [] e.e = "cleared" -> Cleared(e) [] e.e = "pair" -> Pair(e) [] e.e = "row" -> Row(e) [] e.e = "gen" -> Gen(e) [] e.e = "done" -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
