------------------------------ MODULE Voronoi ------------------------------
(* V01.  What an explicit mesh of integer seeds must be.                      *)
(*                                                                            *)
(* The machine builds the Voronoi complex of a seed set piece by piece, in    *)
(* any order that respects incidence: a vertex with all the seeds around it,  *)
(* the face between two seeds, and a cell once its faces close up.  Each      *)
(* guard is exact integer arithmetic, so a complex that can be built is the   *)
(* Voronoi diagram: a closed surface of true Voronoi faces inside the sphere  *)
(* that bounds a cell is all of it.  Ghost seeds have no cell of their own.   *)
EXTENDS Geo, TLC

(* pos: seed -> coordinates; ghost: set of ghost seeds; K: the scale of the   *)
(* recorded vertex coordinates.                                               *)

(* a vertex at recorded location q with incident seeds S; B is a base of four *)
(* of them that are not coplanar                                              *)
VertexOk(pos, q, S, B, K, tol) ==
    LET a  == pos[B[1]]
        q1 == Sub(pos[B[2]], a)
        q2 == Sub(pos[B[3]], a)
        q3 == Sub(pos[B[4]], a)
        D  == CircD(q1, q2, q3)
        N  == CircN(q1, q2, q3)
    IN  /\ \A k \in 1..4 : B[k] \in S
        /\ D # 0
        /\ \A s \in DOMAIN pos :
               LET w == SpherePower(Sub(pos[s], a), N, D)
               IN  IF s \in S THEN w = 0 ELSE w > 0
        /\ \A c \in 1..3 : Abs(2 * D * (q[c] - K * a[c]) - K * N[c]) <= 2 * Abs(D) * tol

(* the seeds around a vertex, VertexSets: vertex -> set of seeds              *)
Shared(vs, i, j) == { v \in DOMAIN vs : i \in vs[v] /\ j \in vs[v] }

(* consecutive corners of the face (i, j) end an edge of the diagram          *)
EdgeOk(pos, vs, i, j, v, w) ==
    \E k \in (vs[v] \cap vs[w]) \ {i, j} :
        Cross(Sub(pos[j], pos[i]), Sub(pos[k], pos[i])) # Vec0

FaceOk(pos, ghost, vs, i, j, c) ==
    LET C == Range(c) n == Len(c)
    IN  /\ i # j
        /\ ~(i \in ghost /\ j \in ghost)
        /\ C \subseteq Shared(vs, i, j)
        /\ \/ Cardinality(C) < 3                     \* a face of zero size (cospherical seeds)
           \/ /\ Cardinality(C) = n                  \* every corner once
              /\ C = Shared(vs, i, j)                \* and all of them
              /\ \A k \in 1..n : EdgeOk(pos, vs, i, j, c[k], c[IF k = n THEN 1 ELSE k + 1])

(* the faces of a cell, as a set of corner sequences, close up                *)
EdgesOf(c) == { { c[k], c[IF k = Len(c) THEN 1 ELSE k + 1] } : k \in 1..Len(c) }
CellClosed(vs, i, fs) ==
    /\ Cardinality(fs) >= 4
    /\ \A v \in DOMAIN vs : i \in vs[v] => \E c \in fs : v \in Range(c)
    /\ \A c \in fs : \A e \in EdgesOf(c) :
           Cardinality({ d \in fs : e \in EdgesOf(d) }) = 2
=============================================================================
