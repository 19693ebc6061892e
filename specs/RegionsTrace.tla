---------------------------- MODULE RegionsTrace ----------------------------
(* V03 against the program.  Two kinds of jobs.                               *)
(*  grid: a generated world of RegionsGen: cells of an nx * ny grid with a    *)
(*        label or a wall; the program was given these seeds and labels, and  *)
(*        reports a label per cell and a number of regions.                   *)
(*  run:  a full run on a model of unit cells (or a convex one): each seed's  *)
(*        position, its label in the seeds file and in the mesh file.  The    *)
(*        components of space are computed here, by flooding the unit cells.  *)
EXTENDS Space, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, lab, comp, pre, bad
vars == << job, l, lab, comp, pre, bad >>
J == Jobs[job]
Ev == J.ev

(* ---- grid worlds ---- *)
(* the cells are bricks: every second row is shifted by half a brick           *)
XY(k) == LET y == (k - 1) \div J.nx IN << 2 * ((k - 1) % J.nx) + (y % 2), y >>
Touch(a, b) == LET p == XY(a) q == XY(b) dx == Abs(p[1] - q[1]) dy == Abs(p[2] - q[2])
               IN (dy = 0 /\ dx = 2) \/ (dy = 1 /\ dx = 1)
RealLinks == { { J.w[p[1]], J.w[p[2]] } : p \in { q \in (1..Len(J.w)) \X (1..Len(J.w)) :
                    q[1] < q[2] /\ J.w[q[1]] # 0 /\ J.w[q[2]] # 0 /\ Touch(q[1], q[2]) } }
RECURSIVE Closure(_, _)
Closure(X, L) == LET Y == X \cup UNION { S \in L : S \cap X # {} } IN IF Y = X THEN X ELSE Closure(Y, L)
GridMesh(e) ==
    LET U == Range(J.w) \ { 0 }
        classes == { Closure({ a }, RealLinks) : a \in U }
        cells == { k \in 1..Len(J.w) : J.w[k] # 0 }
    IN /\ UNCHANGED << lab, comp, pre >>
       /\ bad' = IF \E k \in cells : e.lab[k] <= 0 THEN "a cell without a region"
                 ELSE IF \E a, b \in cells : (e.lab[a] = e.lab[b]) # (J.w[b] \in Closure({ J.w[a] }, RealLinks)) THEN "labels do not follow the contacts"
                 ELSE IF e.n # Cardinality(classes) THEN "wrong number of regions reported"
                 ELSE ""

(* ---- runs ---- *)
FloodEv(e) == /\ UNCHANGED << lab, pre >> /\ bad' = ""
              /\ comp' = Components(J)
At(p) == SpAt(J, comp, p)
(* a seed: position, label a in the seeds file (0 outside), label b in the mesh (0 no cell) *)
SeedEv(e) ==
    LET c == At(e.p) IN
    /\ UNCHANGED << comp >>
    /\ lab' = IF c = 0 \/ c \in DOMAIN lab THEN lab ELSE (c :> e.b) @@ lab
    /\ pre' = IF c = 0 \/ e.a = 0 \/ e.a \in DOMAIN pre THEN pre ELSE (e.a :> c) @@ pre
    /\ bad' = IF c = 0 THEN ""
              ELSE IF (c = Outside) # (e.b = 0) THEN "a seed outside the model has a cell, or one inside has none"
              ELSE IF (e.a = 0) # (e.b = 0) THEN "seed and cell disagree about the outside"
              ELSE IF c \in DOMAIN lab /\ lab[c] # e.b THEN "one component has two labels"
              ELSE IF \E x \in DOMAIN lab : x # c /\ lab[x] = e.b THEN "two components share a label"
              ELSE IF e.a # 0 /\ e.a \in DOMAIN pre /\ pre[e.a] # c THEN "a provisional label spans two components"
              ELSE ""
EndEv(e) ==
    /\ UNCHANGED << lab, comp, pre >>
    /\ bad' = IF e.n # Cardinality(DOMAIN lab \ { Outside }) THEN "wrong number of regions reported"
              ELSE IF J.kind = "vox" /\ { comp[k] : k \in 1..Len(comp) } # DOMAIN lab THEN "a component without seeds"
              ELSE ""
Init == job \in 1..Len(Jobs) /\ l = 1 /\ lab = << >> /\ comp = << >> /\ pre = << >> /\ bad = ""
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "grid"  -> GridMesh(e)
               [] e.e = "flood" -> FloodEv(e)
               [] e.e = "seed"  -> SeedEv(e)
               [] e.e = "end"   -> EndEv(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
