--------------------------- MODULE FeaturesTrace ----------------------------
(* Feature detection of the program against Features.  kind "det": the        *)
(* detector's lists for a complex (edges, corners, cloud points in 1/1000);   *)
(* kind "run": a full run: corner sphere centres and edge sphere centres in   *)
(* 1/1000 of the integer frame, and the counts in the log.                    *)
EXTENDS Features, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, nm, E, C, bad
vars == << job, l, nm, E, C, bad >>
J == Jobs[job]
Ev == J.ev
F == J.f
V == J.v
T == J.t
Rng(s) == { s[k] : k \in 1..Len(s) }
Init == job \in 1..Len(Jobs) /\ l = 1 /\ nm = << >> /\ E = {} /\ C = {} /\ bad = ""
Normals == [k \in 1..Len(F) |-> Normal(V, F[k])]
(* the detector's list of sharp edges                                          *)
EdgeList(e) ==
    LET R == { Pair(x[1], x[2]) : x \in Rng(e.s) } IN
    /\ nm' = Normals /\ E' = R /\ UNCHANGED C
    /\ bad' = IF ~(R \subseteq Edges(F)) THEN "a sharp edge is no edge of the model"
              ELSE LET vd == [x \in Edges(F) |-> SharpEdge(V, F, Normals, T, x)]
                   IN IF \E x \in Edges(F) : vd[x] = 2 /\ ~(x \in R) THEN "a sharp edge is missing"
                      ELSE IF \E x \in R : vd[x] = 0 THEN "a smooth edge is listed as sharp" ELSE ""
CornerJudge(R) == IF \E v \in 1..Len(V) : Corner(V, E, T, v) = 2 /\ ~(v \in R) THEN "a sharp corner is missing"
                  ELSE IF \E v \in R : Corner(V, E, T, v) = 0 THEN "a vertex is listed as a corner that is none" ELSE ""
CornerList(e) ==
    LET R == Rng(e.s) IN
    /\ C' = R /\ UNCHANGED << nm, E >>
    /\ bad' = IF Cardinality(R) # Len(e.s) THEN "a corner is listed twice" ELSE CornerJudge(R)
Counts(e) == /\ UNCHANGED << nm, E, C >>
             /\ bad' = IF \E x \in E : ~(\E k \in 1..Len(e.k) : Pair(e.s[k][1], e.s[k][2]) = x /\ e.k[k] > 0) THEN "a sharp edge got no sample" ELSE ""
(* p is in 1/1000; on the segment a b (vertices)                               *)
M(v) == << 1000 * v[1], 1000 * v[2], 1000 * v[3] >>
Sum1(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
OnSeg(p, a, b) == LET d == Sub(V[b], V[a]) r == Sub(p, M(V[a])) c == Cross(d, r)
                  IN Abs(c[1]) + Abs(c[2]) + Abs(c[3]) <= 5 * Sum1(d) * J.tol /\ Dot(r, d) >= -5 * J.tol * Sum1(d) /\ Dot(r, d) <= 1000 * Dot(d, d) + 5 * J.tol * Sum1(d)
Along(t, a, b) == LET d == Sub(V[b], V[a]) c == Cross(d, t) IN Sum1(c) <= 5 * Sum1(d)
EdgePoint(e) == /\ UNCHANGED << nm, E, C >>
                /\ bad' = IF ~(Pair(e.i, e.j) \in E) THEN "an edge sample is attributed to no sharp edge"
                          ELSE IF ~OnSeg(e.p, e.i, e.j) THEN "an edge sample is not on its edge"
                          ELSE IF ~Along(e.n, e.i, e.j) THEN "an edge sample has a wrong tangent" ELSE ""
InFace(p, k) == LET f == F[k] IN \A i \in 1..3 :
                   LET a == V[f[i]] b == V[f[(i % 3) + 1]] IN Dot(Cross(Sub(b, a), Sub(p, M(a))), nm[k]) >= -5 * Sum1(Sub(b, a)) * Sum1(nm[k])
FacePoint(e) == /\ UNCHANGED << nm, E, C >>
                /\ bad' = IF ~(e.k \in 1..Len(F)) THEN "a surface sample is attributed to no face"
                          ELSE LET a == M(V[F[e.k][1]]) IN
                               IF Abs(Dot(Sub(e.p, a), nm[e.k])) > 3 * Sum1(nm[e.k]) \/ ~InFace(e.p, e.k) THEN "a surface sample is not on its face"
                               ELSE IF Sum1(Cross(nm[e.k], e.n)) > 5 * Sum1(nm[e.k]) \/ Dot(nm[e.k], e.n) <= 0 THEN "a surface sample has a wrong normal" ELSE ""
(* ---- full runs: the features follow from the model, undecided cases are kept out by the job ---- *)
Model(e) == /\ nm' = Normals
            /\ LET vd == [x \in Edges(F) |-> SharpEdge(V, F, Normals, T, x)]
                   R == { x \in Edges(F) : vd[x] = 2 }
               IN /\ E' = R
                  /\ C' = { v \in 1..Len(V) : Corner(V, R, T, v) = 2 }
                  /\ bad' = IF (\E x \in Edges(F) : vd[x] = 1) \/ (\E v \in 1..Len(V) : Corner(V, R, T, v) = 1) THEN "job with undecided features" ELSE ""
At(p, v) == Sum1(Sub(p, M(V[v]))) <= 5 * J.tol
CornerSpheres(e) == /\ UNCHANGED << nm, E, C >>
    /\ bad' = IF \E v \in C : Cardinality({ k \in 1..Len(e.s) : At(e.s[k], v) }) # 1 THEN "a sharp corner does not have exactly one sphere"
              ELSE IF Len(e.s) # Cardinality(C) THEN "a corner sphere is centred on no sharp corner" ELSE ""
EdgeSphere(e) == /\ UNCHANGED << nm, E, C >>
    /\ bad' = IF ~(\E x \in E : OnSeg(e.p, x[1], x[2])) THEN "an edge sphere is not on a sharp edge" ELSE ""
EdgeSpheres(e) == /\ UNCHANGED << nm, E, C >>
    /\ bad' = IF (E = {}) # (e.n = 0) /\ (e.n > 0 \/ \E x \in E : ~(x[1] \in C) \/ ~(x[2] \in C)) THEN "edge spheres do not go with sharp edges" ELSE ""
Log(e) == /\ UNCHANGED << nm, E, C >> /\ bad' = IF e.c # Cardinality(C) THEN "wrong number of corners reported" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
           CASE e.e = "edges" -> EdgeList(e) [] e.e = "corners" -> CornerList(e) [] e.e = "counts" -> Counts(e)
             [] e.e = "ep" -> EdgePoint(e) [] e.e = "fp" -> FacePoint(e)
             [] e.e = "model" -> Model(e) [] e.e = "cs" -> CornerSpheres(e) [] e.e = "es" -> EdgeSphere(e)
             [] e.e = "en" -> EdgeSpheres(e) [] e.e = "log" -> Log(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
