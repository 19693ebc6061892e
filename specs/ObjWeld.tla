------------------------------ MODULE ObjWeld -------------------------------
(* The welding procedure: vertices come one by one; one that is near a kept   *)
(* vertex joins the nearest, otherwise it is kept; then the triangles are     *)
(* renamed and collapsed ones are taken out by moving the last one into their *)
(* place.  Every model of up to NV vertices on a line of offsets is run.      *)
EXTENDS ObjModel, TLC
CONSTANTS NV, NF, Offs, Places, HOLD      \* HOLD: the index is not advanced after a removal (the code), or it is (a bug)
VARIABLES P, F, Q, to, G, i, pc
vars == << P, F, Q, to, G, i, pc >>
Pts == { << c, o, 0, 0 >> : c \in Places, o \in Offs }
Init == /\ P \in UNION { [1..n -> Pts] : n \in 1..NV }
        /\ F \in UNION { [1..n -> { t \in (1..Len(P)) \X (1..Len(P)) \X (1..Len(P)) : ~Degen(t) /\ t[1] < t[2] /\ t[1] < t[3] }] : n \in 0..NF }
        /\ Q = << >> /\ to = << >> /\ G = << >> /\ i = 1 /\ pc = "add"
Add == /\ pc = "add" /\ i <= Len(P)
       /\ LET N == { k \in 1..Len(Q) : Near(P[i], Q[k]) } IN
          IF N = {} THEN Q' = Append(Q, P[i]) /\ to' = Append(to, Len(Q) + 1)
          ELSE /\ Q' = Q
               /\ \E k \in N : (\A j \in N : D2(P[i], Q[k]) <= D2(P[i], Q[j])) /\ to' = Append(to, k)
       /\ i' = i + 1 /\ UNCHANGED << P, F, G, pc >>
Rename == /\ pc = "add" /\ i > Len(P)
          /\ G' = [k \in 1..Len(F) |-> << to[F[k][1]], to[F[k][2]], to[F[k][3]] >>]
          /\ i' = 1 /\ pc' = (IF Len(Q) = Len(P) THEN "end" ELSE "drop") /\ UNCHANGED << P, F, Q, to >>
Drop == /\ pc = "drop" /\ i <= Len(G)
        /\ IF Degen(G[i]) THEN /\ G' = [k \in 1..(Len(G) - 1) |-> IF k = i THEN G[Len(G)] ELSE G[k]]
                               /\ i' = IF HOLD THEN i ELSE i + 1
           ELSE G' = G /\ i' = i + 1
        /\ UNCHANGED << P, F, Q, to, pc >>
Done == pc = "drop" /\ i > Len(G) /\ pc' = "end" /\ UNCHANGED << P, F, Q, to, G, i >>
Next == Add \/ Rename \/ Drop \/ Done
Spec == Init /\ [][Next]_vars
Welded == pc = "end" => WeldWhy(P, F, Q, G) = ""
=============================================================================
