------------------------------ MODULE ObjTrace ------------------------------
(* Recorded readings, combinations and savings of model files.                *)
EXTENDS ObjModel, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, bad
vars == << job, l, bad >>
Ev == Jobs[job].ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ bad = ""
(* dev: relative error of the coordinates in 1e-16                             *)
Load(e) == LET m == TLCEval(Cat(e.files, Len(e.files)))
               w == IF Len(e.files) = 1 THEN WeldWhy(m.p, m.f, e.q, e.g) ELSE MergeWhy(m.p, m.f, e.q, e.g) IN
           IF w # "" THEN w ELSE IF e.dev > (IF Len(e.files) = 1 THEN 2 ELSE 10) THEN "coordinates are not those of the file" ELSE ""
Save(e) == IF ~Same(e.p, e.f, e.q, e.g) THEN "a saved model reads back differently"
           ELSE IF e.dev > 10 THEN "a saved model has lost digits" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN bad' = IF e.e = "load" THEN Load(e) ELSE Save(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 /\ Len(Ev[l - 1].q) < 30 THEN Ev[l - 1] ELSE <<>>]
=============================================================================
