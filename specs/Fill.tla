-------------------------------- MODULE Fill --------------------------------
(* V04.  The cells of a run fill each component of space exactly, and the     *)
(* faces between components, and towards the outside, lie on the planes of    *)
(* the input surface and have exactly its area.                               *)
(*                                                                            *)
(* Positions are in 1/1000 of the model's unit, plane coordinates in 1e-6,    *)
(* volumes and areas are pairs <<a, b>> meaning a*1e-6 + b*1e-12 of a unit.   *)
EXTENDS Space, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, comp, cellc, cellp, vol, area, bad
vars == << job, l, comp, cellc, cellp, vol, area, bad >>
J == Jobs[job]
Ev == J.ev
M6 == 1000000
Norm(x) == << x[1] + x[2] \div M6, x[2] % M6 >>
Plus(x, y) == Norm(<< x[1] + y[1], x[2] + y[2] >>)
Zero == << 0, 0 >>
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero
(* |x - y| <= t * 1e-12 for t < 1e9 *)
Close(x, y, t) == LET d == x[1] - y[1] IN Abs(d) <= 1000 /\ Abs(d * M6 + (x[2] - y[2])) <= t

Init == /\ job \in 1..Len(Jobs) /\ l = 1 /\ comp = << >> /\ cellc = << >> /\ cellp = << >>
        /\ vol = << >> /\ area = << >> /\ bad = ""

Flood(e) == /\ comp' = Components(J) /\ bad' = "" /\ UNCHANGED << cellc, cellp, vol, area >>

(* a cell: position and volume                                                *)
Cell(e) ==
    LET c == SpAt(J, comp, e.p) IN
    /\ cellc' = Append(cellc, c) /\ cellp' = Append(cellp, e.p)
    /\ vol' = IF c = 0 THEN vol ELSE (c :> Plus(Get(vol, c), e.v)) @@ vol
    /\ UNCHANGED << comp, area >>
    /\ bad' = IF c = Outside THEN "a cell outside the model" ELSE IF c = 0 THEN "a seed on the surface" ELSE ""

(* the plane of the input surface a face lies on: <<axis, coordinate>> for    *)
(* unit cells, the number of the half-space for convex models, 0 if none      *)
AxisOf(n) == IF Abs(n[1]) >= 999 THEN 1 ELSE IF Abs(n[2]) >= 999 THEN 2 ELSE IF Abs(n[3]) >= 999 THEN 3 ELSE 0
PlaneOf(x) ==
    IF J.kind = "vox" THEN
        LET a == AxisOf(x.n) IN
        IF a = 0 THEN << 0, 0 >>
        ELSE LET q == (x.m[a] + M6 \div 2) \div M6 IN IF Abs(x.m[a] - q * M6) <= 20 THEN << a, q >> ELSE << 0, 0 >>
    ELSE LET S == { k \in 1..Len(J.h) : /\ \A c \in 1..3 : Abs(x.n[c] - J.h[k][1][c]) <= 2
                                        /\ Abs(x.hd[k]) <= 20 }
         IN IF S = {} THEN << 0, 0 >> ELSE << 4, CHOOSE k \in S : TRUE >>
(* the connections whose first cell is e.i; x.g is the position of an outer   *)
(* connection's other seed                                                    *)
Sides(i, x) == << cellc[i], IF x.j = i THEN SpAt(J, comp, x.g) ELSE cellc[x.j] >>
Tiny(x) == x.a[1] = 0 /\ x.a[2] <= 1000
Wrong(i, x) ==
    LET s == Sides(i, x) IN
    IF x.j = i /\ s[2] # Outside /\ s[2] # 0 THEN "an outer face towards the inside"
    ELSE IF s[1] = s[2] \/ Tiny(x) THEN ""
    ELSE IF PlaneOf(x) = << 0, 0 >> THEN "a face between components off the input surface"
    ELSE ""
Key(i, x) == LET s == Sides(i, x) p == PlaneOf(x) IN << p[1], p[2], Min2(s[1], s[2]), Max2(s[1], s[2]) >>
Conns(e) ==
    LET W == { k \in 1..Len(e.x) : Wrong(e.i, e.x[k]) # "" }
        I == { k \in 1..Len(e.x) : Sides(e.i, e.x[k])[1] # Sides(e.i, e.x[k])[2] /\ ~Tiny(e.x[k]) }
        RECURSIVE acc(_, _)
        acc(k, f) == IF k > Len(e.x) THEN f
                     ELSE acc(k + 1, IF k \in I THEN (Key(e.i, e.x[k]) :> Plus(Get(f, Key(e.i, e.x[k])), e.x[k].a)) @@ f ELSE f)
    IN /\ UNCHANGED << comp, cellc, cellp, vol >>
       /\ bad' = IF W = {} THEN "" ELSE Wrong(e.i, e.x[CHOOSE k \in W : TRUE])
       /\ area' = IF W = {} THEN acc(1, area) ELSE area

(* what the model demands                                                     *)
CompIds == { comp[k] : k \in 1..Len(comp) }
NCells(c) == Cardinality({ k \in 1..Len(comp) : comp[k] = c })
Step(a) == IF a = 1 THEN 1 ELSE IF a = 2 THEN SpDX(J) ELSE SpDX(J) * SpDY(J)
CoordOf(a, k) == (IF a = 1 THEN (k - 1) % SpDX(J) ELSE IF a = 2 THEN ((k - 1) \div SpDX(J)) % SpDY(J)
                  ELSE (k - 1) \div (SpDX(J) * SpDY(J)))          \* 0-based; the plane behind cell k has this coordinate
UnitFaces == { z \in (1..3) \X (1..Len(comp)) :
                   (z[2] + Step(z[1])) \in SpNbr(J, z[2]) /\ comp[z[2]] # comp[z[2] + Step(z[1])] }
FaceKey(z) == << z[1], CoordOf(z[1], z[2]), Min2(comp[z[2]], comp[z[2] + Step(z[1])]), Max2(comp[z[2]], comp[z[2] + Step(z[1])]) >>
WantVol == IF J.kind = "vox" THEN [c \in CompIds \ { Outside } |-> << NCells(c) * M6, 0 >>] ELSE (2 :> J.vol)
WantArea == IF J.kind = "vox"
            THEN LET F == UnitFaces K == { FaceKey(z) : z \in F }
                 IN [k \in K |-> << Cardinality({ z \in F : FaceKey(z) = k }) * M6, 0 >>]
            ELSE [k \in { << 4, i, 1, 2 >> : i \in 1..Len(J.h) } |-> J.area[k[2]]]
TOL == 20000       \* 2e-8 of a unit
Done(e) ==
    /\ UNCHANGED << comp, cellc, cellp, vol, area >>
    /\ bad' = IF DOMAIN vol # DOMAIN WantVol THEN "a component without cells"
              ELSE IF \E c \in DOMAIN vol : ~Close(vol[c], WantVol[c], TOL) THEN "the cells of a component do not have its volume"
              ELSE IF DOMAIN area # DOMAIN WantArea THEN "a part of the surface is missing, or there is one too many"
              ELSE IF \E k \in DOMAIN area : ~Close(area[k], WantArea[k], TOL) THEN "faces do not have the area of the surface"
              ELSE ""
Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "flood" -> Flood(e)
               [] e.e = "cell"  -> Cell(e)
               [] e.e = "conns" -> Conns(e)
               [] e.e = "done"  -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, vol |-> vol, area |-> area, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
=============================================================================
