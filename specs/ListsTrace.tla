----------------------------- MODULE ListsTrace -----------------------------
(* Recorded appends and sorts of the program against Lists.                    *)
(* append: one event per append (value, reported count, reported room); "end"  *)
(* gives the contents.  sort: keys before and after and the companions; for    *)
(* the sort without companions y is a hint of where each key came from.        *)
EXTENDS Lists, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, s, bad
vars == << job, l, s, bad >>
Ev == Jobs[job].ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ s = << >> /\ bad = ""
App(e) == /\ s' = Append(s, e.v)
          /\ bad' = IF e.n # Len(s) + 1 THEN "the count after an append is wrong" ELSE IF e.cap < e.n THEN "a list has more entries than room" ELSE ""
End(e) == /\ UNCHANGED s
          /\ bad' = IF e.s # s THEN "a list lost, changed or reordered an entry" ELSE IF e.over > 0 THEN "an append wrote outside its list" ELSE ""
Sort(e) == /\ UNCHANGED s
           /\ bad' = IF Len(e.x2) # Len(e.x) \/ ~Moves(e.x, e.x2, e.y, e.l, e.r) THEN "a sort is no permutation of its range with its companions"
                     ELSE IF ~Ordered(e.x2, e.l, e.r) THEN "a sort left keys out of order"
                     ELSE IF e.over > 0 THEN "a sort wrote outside its arrays" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN CASE e.e = "app" -> App(e) [] e.e = "end" -> End(e) [] e.e = "sort" -> Sort(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
