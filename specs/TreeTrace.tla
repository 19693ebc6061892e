----------------------------- MODULE TreeTrace ------------------------------
(* Histories of the real collections, step by step against Tree.              *)
EXTENDS Tree, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, bad
vars == << job, l, bad, D, pts, lnk >>
J == Jobs[job]
Ev == J.ev
Same(i, r) ==
    IF r.x # pts[i].x THEN "coordinates or real attributes differ"
    ELSE IF ~J.unit /\ r.n # pts[i].n THEN "normal differs"
    ELSE IF r.a # pts[i].a THEN "attributes differ"
    ELSE IF { r.nb[k] : k \in 1..Len(r.nb) } # lnk[i] THEN "links differ"
    ELSE IF r.c # Len(r.nb) THEN "a link is listed twice"
    ELSE ""
First(S, f(_)) == LET B == { k \in 1..Len(S) : f(S[k]) # "" } IN
                  IF B = {} THEN "" ELSE f(S[CHOOSE k \in B : \A m \in B : k <= m])
Dump(e) == IF Len(e.s) # N THEN "wrong number of points"
           ELSE LET B == { i \in 1..N : Same(i, e.s[i]) # "" } IN
                IF B = {} THEN "" ELSE Same(CHOOSE i \in B : TRUE, e.s[CHOOSE i \in B : TRUE])
(* renumbered: the tags (last coordinate) say where each point went            *)
Tag(p) == p.x[Len(p.x)]
Init == job \in 1..Len(Jobs) /\ l = 1 /\ bad = "" /\ D = Jobs[job].D /\ pts = << >> /\ lnk = << >>
Keep == UNCHANGED state
Step(e) ==
    CASE e.e = "add"   -> Add([x |-> e.x, n |-> e.n, a |-> e.a]) /\ bad' = IF e.r # N + 1 THEN "wrong number of points" ELSE ""
      [] e.e = "link1" -> Link1(e.i, e.j) /\ bad' = ""
      [] e.e = "link2" -> Link2(e.i, e.j) /\ bad' = ""
      [] e.e = "unlink" -> Unlink /\ bad' = ""
      [] e.e = "conn"  -> Keep /\ bad' = IF (e.r = 1) # (e.j \in lnk[e.i]) THEN "wrong answer about a link" ELSE ""
      [] e.e = "setr"  -> SetReal(e.i, e.k, e.v) /\ bad' = IF e.r # e.v THEN "a real attribute reads back differently" ELSE ""
      [] e.e = "seti"  -> SetInt(e.i, e.k, e.v) /\ bad' = ""
      [] e.e = "geti"  -> Keep /\ bad' = LET a == pts[e.i].a IN
                             IF (e.r = 1) # (1 + e.k <= Len(a)) THEN "wrong answer about the existence of an attribute"
                             ELSE IF e.r = 1 /\ e.v # a[1 + e.k] THEN "an attribute reads back differently" ELSE ""
      [] e.e = "point" -> Keep /\ bad' = Same(e.i, e.s[1])
      [] e.e = "dump"  -> Keep /\ bad' = Dump(e)
      [] e.e = "keep"  -> Keep /\ bad' = ""
      [] e.e = "clear" -> Empty(D) /\ bad' = ""
      [] e.e = "load"  -> Unlink /\ bad' = IF e.r # N THEN "a different number of points was loaded" ELSE ""
      [] e.e = "renum" -> IF Len(e.s) # N \/ { Tag(e.s[i]) : i \in 1..Len(e.s) } # { Tag(pts[i]) : i \in 1..N }
                          THEN Keep /\ bad' = "renumbering is not a permutation"
                          ELSE LET q == [i \in 1..N |-> CHOOSE j \in 1..N : Tag(pts[j]) = Tag(e.s[i])]
                               IN Permute(q) /\ bad' = ""
      [] e.e = "perm"  -> IF Len(e.old) # N \/ Len(e.new) # N \/ { e.old[i] : i \in 1..N } # 1..N THEN Keep /\ bad' = "renumbering is not a permutation"
                          ELSE /\ Permute(e.old)
                               /\ bad' = IF \E i \in 1..N : e.new[e.old[i]] # i THEN "the two renumbering tables are not inverse"
                                         ELSE IF \E i \in 1..N : e.x[i] # pts[e.old[i]].x THEN "renumbering changed coordinates" ELSE ""
      [] e.e = "q"     -> Keep /\ bad' = First(e.q, Judge)
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job /\ Step(Ev[l])
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, n |-> N]
=============================================================================
