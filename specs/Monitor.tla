------------------------------ MODULE Monitor -------------------------------
(* V13, the procedure.  Space is a line of places; some are outside the model *)
(* and some are inside protecting spheres.  The seeds are kept in one list:   *)
(* the surface seeds, the seeds added along sharp edges, the requested points *)
(* that were accepted, the seeds that fill the interior.  Workers judge the   *)
(* requested points one by one in any order; accepted ones are appended in    *)
(* the order of the request; the interior is filled (any free places); then   *)
(* the spheres of the accepted points are cleared by place in the list, and   *)
(* for every rejected point the closest seed is reported.  AFTER and FROM     *)
(* choose between the procedure and two faulty ones.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, NR, Radii, AFTER, FROM
VARIABLES surf, edge, ball, req, verdict, list, pc, nimp, keep, rep
vars == << surf, edge, ball, req, verdict, list, pc, nimp, keep, rep >>
Places == 1..N
Abs(x) == IF x < 0 THEN -x ELSE x
Outside == { 1, N }                         \* the ends of the line
RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN << x >> \o SetToSeq2(S \ {x})
Inj(S, k) == { s \in [1..k -> S] : \A i, j \in 1..k : i # j => s[i] # s[j] }
Init == /\ surf \in { s \in SUBSET Places : Cardinality(s) = 2 /\ s \cap Outside # {} /\ s \ Outside # {} }
        /\ edge \in { e \in SUBSET (Places \ (Outside \cup surf)) : Cardinality(e) <= 1 }
        /\ ball \in { b \in SUBSET (Places \ (surf \cup edge)) : Cardinality(b) <= 1 }
        /\ \E k \in 0..NR : req \in { [i \in 1..k |-> [p |-> s[i], r |-> q[i]]] : s \in Inj(Places \ (surf \cup edge), k), q \in [1..k -> Radii] }
        /\ verdict = [i \in 1..Len(req) |-> "?"]
        /\ list = SetToSeq2(surf) \o SetToSeq2(edge) /\ pc = "judge" /\ nimp = 0 /\ keep = {} /\ rep = << >>
Allowed(p) == p \notin Outside /\ p \notin ball
Judge == /\ pc = "judge" /\ \E i \in 1..Len(req) : verdict[i] = "?" /\ verdict' = [verdict EXCEPT ![i] = IF Allowed(req[i].p) THEN "yes" ELSE "no"]
         /\ UNCHANGED << surf, edge, ball, req, list, pc, nimp, keep, rep >>
Commit == /\ pc = "judge" /\ \A i \in 1..Len(req) : verdict[i] # "?"
          /\ LET A == { i \in 1..Len(req) : verdict[i] = "yes" } IN
             /\ list' = list \o [k \in 1..Cardinality(A) |-> req[CHOOSE i \in A : Cardinality({ j \in A : j <= i }) = k].p]
             /\ nimp' = Cardinality(A) + (IF FROM = "surface" THEN Cardinality(edge) ELSE 0)
          /\ pc' = "fill" /\ UNCHANGED << surf, edge, ball, req, verdict, keep, rep >>
Used == { list[k] : k \in 1..Len(list) }
Fill == /\ pc = "fill" /\ \E F \in SUBSET { p \in Places : Allowed(p) /\ p \notin Used } : list' = list \o SetToSeq2(F)
        /\ pc' = "clear" /\ UNCHANGED << surf, edge, ball, req, verdict, nimp, keep, rep >>
Ncrit == Cardinality(surf) + Cardinality(edge)
Clear == /\ pc = "clear"
         /\ keep' = { k \in 1..Len(list) : ~ (k > Ncrit + nimp /\ \E i \in 1..Len(req) : verdict[i] = "yes" /\ Abs(list[k] - req[i].p) <= req[i].r) }
         /\ pc' = "report" /\ UNCHANGED << surf, edge, ball, req, verdict, list, nimp, rep >>
Final == { list[k] : k \in keep }
Cand == IF AFTER THEN Final ELSE Used
Near(i, S) == { p \in S : \A x \in S : Abs(p - req[i].p) <= Abs(x - req[i].p) }
Report == /\ pc = "report"
          /\ rep' \in { f \in [1..Len(req) -> Places] : \A i \in 1..Len(req) : f[i] \in Near(i, Cand) }
          /\ pc' = "end" /\ UNCHANGED << surf, edge, ball, req, verdict, list, nimp, keep >>
Next == Judge \/ Commit \/ Fill \/ Clear \/ Report
Spec == Init /\ [][Next]_vars
Asked == { req[i].p : i \in 1..Len(req) }
Promise == pc = "end" =>
    /\ surf \cup edge \subseteq Final
    /\ \A i \in 1..Len(req) :
        /\ (req[i].p \in Final) = Allowed(req[i].p)
        /\ Allowed(req[i].p) => /\ rep[i] = req[i].p
                                /\ \A p \in Final : p \in surf \cup edge \cup Asked \/ Abs(p - req[i].p) > req[i].r
        /\ rep[i] \in Near(i, Final)
=============================================================================
