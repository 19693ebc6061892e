------------------------------ MODULE ObjModel ------------------------------
(* Surface model files: a file is a sequence of records (vertices, triangles  *)
(* that refer to vertices by number, anything else).  Reading keeps vertices  *)
(* and triangles in order; combining appends files; welding merges vertices   *)
(* nearer than H.  A vertex is << c, x, y, z >>: place c, offset in a unit    *)
(* much smaller than the distance of two places.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
H2 == 100                                       \* the welding distance squared
D2(a, b) == (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3]) + (a[4] - b[4]) * (a[4] - b[4])
Near(a, b) == a[1] = b[1] /\ D2(a, b) < H2
Range(s) == { s[i] : i \in 1..Len(s) }
(* ---- reading ---- *)
Verts(recs) == LET s == TLCEval(SelectSeq(recs, LAMBDA r : r.k = "v")) IN TLCEval([i \in 1..Len(s) |-> s[i].p])
Tris(recs) == LET s == TLCEval(SelectSeq(recs, LAMBDA r : r.k = "f")) IN TLCEval([i \in 1..Len(s) |-> s[i].r])
Shift(F, n) == TLCEval([i \in 1..Len(F) |-> << F[i][1] + n, F[i][2] + n, F[i][3] + n >>])
RECURSIVE Cat(_, _)
Cat(files, n) == IF n = 0 THEN [p |-> << >>, f |-> << >>]
                 ELSE LET m == TLCEval(Cat(files, n - 1)) IN
                      [p |-> m.p \o Verts(files[n]), f |-> m.f \o Shift(Tris(files[n]), Len(m.p))]
(* ---- welding, as a requirement ---- *)
(* the vertices of Q are vertices of P, no two near, and every one of P is one *)
(* of Q or near one; without near ones nothing changes                         *)
VertsOk(P, Q) ==
    /\ LET R == TLCEval(Range(P)) IN \A k \in 1..Len(Q) : Q[k] \in R
    /\ \A j, k \in 1..Len(Q) : j < k => ~Near(Q[j], Q[k])
    /\ \A i \in 1..Len(P) : \E k \in 1..Len(Q) : Near(P[i], Q[k])
Distinct(P) == \A i, j \in 1..Len(P) : i < j => ~Near(P[i], P[j])
Cand(P, Q) == TLCEval([i \in 1..Len(P) |-> { k \in 1..Len(Q) : Near(P[i], Q[k]) }])
Rot(t) == LET m == CHOOSE i \in 1..3 : \A j \in 1..3 : t[i] <= t[j]
              n(i) == IF i = 3 THEN 1 ELSE i + 1 IN << t[m], t[n(m)], t[n(n(m))] >>
Degen(t) == t[1] = t[2] \/ t[2] = t[3] \/ t[1] = t[3]
CountSet(G, S) == Cardinality({ i \in 1..Len(G) : { G[i][1], G[i][2], G[i][3] } = S })
(* the triangles that do not collapse are all there, with their sense, and no  *)
(* others; duplicates may have been dropped                                    *)
TrisOk(P, F, Q, G) ==
    LET cand == TLCEval(Cand(P, Q)) IN
    IF \A i \in 1..Len(P) : Cardinality(cand[i]) = 1
    THEN LET to == TLCEval([i \in 1..Len(P) |-> CHOOSE k \in cand[i] : TRUE])
             M == TLCEval([i \in 1..Len(F) |-> << to[F[i][1]], to[F[i][2]], to[F[i][3]] >>])
             R == TLCEval({ Rot(M[i]) : i \in { i \in 1..Len(F) : ~Degen(M[i]) } })
             T == TLCEval({ Rot(G[i]) : i \in 1..Len(G) })
             sets(X) == { { t[1], t[2], t[3] } : t \in X } IN
         /\ T \subseteq R
         /\ sets(T) = sets(R)
         /\ (Len(G) # Cardinality(R) => \A S \in sets(T) : CountSet(G, S) <= CountSet(M, S))
    ELSE \A i \in 1..Len(G) : ~Degen(G[i]) /\ \E j \in 1..Len(F) : \E s \in 0..2 :
            \A k \in 1..3 : G[i][k] \in cand[F[j][1 + ((k - 1 + s) % 3)]]
Same(P, F, Q, G) == P = Q /\ F = G
InRange(Q, G) == \A i \in 1..Len(G) : \A k \in 1..3 : G[i][k] \in 1..Len(Q)
(* of several files, in any order                                              *)
MergeWhy(P, F, Q, G) ==
    IF ~InRange(Q, G) THEN "a triangle refers to a vertex that is not there"
    ELSE IF ~VertsOk(P, Q) THEN "near vertices are not merged, or others are"
    ELSE IF ~TrisOk(P, F, Q, G) THEN "triangles were lost, added or changed by merging" ELSE ""
(* of one file: in order, and unchanged without near vertices                  *)
WeldWhy(P, F, Q, G) ==
    IF InRange(Q, G) /\ Distinct(P) THEN (IF P # Q THEN "vertices were lost, added or changed" ELSE IF F # G THEN "triangles were lost, added or changed" ELSE "")
    ELSE MergeWhy(P, F, Q, G)
=============================================================================
