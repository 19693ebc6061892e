---------------------------- MODULE VoronoiTrace ----------------------------
(* Checks recorded meshes against Voronoi.  Each job is one run of the real   *)
(* mesher; its events are the vertices, faces and cells of its result.        *)
EXTENDS Voronoi, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES job, l, vs, fc, bad
vars == << job, l, vs, fc, bad >>

J == Jobs[job]
Ev == J.ev
Pos == J.pos
Ghost == Range(J.ghost)

Init == /\ job \in 1..Len(Jobs)
        /\ l = 1 /\ vs = << >> /\ fc = << >> /\ bad = ""

AddVertex(e) ==
    LET S == Range(e.s)
    IN  /\ vs' = Append(vs, S) /\ UNCHANGED fc
        /\ bad' = IF VertexOk(Pos, e.q, S, e.b, J.K, J.tol) THEN "" ELSE "not a Voronoi vertex"

AddFace(e) ==
    /\ fc' = Append(fc, e) /\ UNCHANGED vs
    /\ bad' = IF ~FaceOk(Pos, Ghost, vs, e.i, e.j, e.c) THEN "not the Voronoi face"
              ELSE ""

Proper(e) == Cardinality(Range(e.c)) >= 3
CellFaces(i) == { fc[k].c : k \in { m \in 1..Len(fc) : (fc[m].i = i \/ fc[m].j = i) /\ Proper(fc[m]) } }

CloseCell(e) ==
    /\ UNCHANGED << vs, fc >>
    /\ bad' = IF e.i \in Ghost THEN "a ghost has a cell"
              ELSE IF CellClosed(vs, e.i, CellFaces(e.i)) THEN "" ELSE "cell does not close"

Done(e) ==
    /\ UNCHANGED << vs, fc >>
    /\ bad' = IF { Ev[k].i : k \in { m \in 1..Len(Ev) : Ev[m].e = "c" } } = DOMAIN Pos \ Ghost
              THEN IF Cardinality({ {fc[k].i, fc[k].j} : k \in 1..Len(fc) }) = Len(fc)
                   THEN "" ELSE "face listed twice"
              ELSE "cells missing"

Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "v" -> AddVertex(e)
               [] e.e = "f" -> AddFace(e)
               [] e.e = "c" -> CloseCell(e)
               [] e.e = "d" -> Done(e)

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
View == << job, l, bad >>
=============================================================================
