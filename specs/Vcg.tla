-------------------------------- MODULE Vcg --------------------------------
(* V02.  A mesh file, read line by line, against the seeds it was made from.  *)
(*                                                                            *)
(* A job holds the seeds (KP units, region), the mesher's faces (corners in   *)
(* KV units, when known) and the file's lines.  The machine consumes the      *)
(* lines; each guard says what the line must be given the lines before it.    *)
(* Vectors and areas are integers; every tolerance is the rounding error of   *)
(* the integers themselves, computed here.                                    *)
EXTENDS Geo, TLC, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES job, l, seedOf, pairs, bad
vars == << job, l, seedOf, pairs, bad >>

J == Jobs[job]
Ev == J.ev
NS == Len(J.pos)

(* a*b \div S for |a| < 2^30, |b| < 2^20, S = 1000, without overflow          *)
S == 1000
Quo(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
MulDiv(a, b) == LET q == Quo(a, S) r == a - q * S IN q * b + Quo(r * b, S)

Init == /\ job \in 1..Len(Jobs) /\ l = 1 /\ seedOf = << >> /\ pairs = {} /\ bad = ""

Code(a, b) == Min2(a, b) * 40000 + Max2(a, b)      \* an unordered pair as one number
Near(a, b, t) == \A k \in 1..3 : Abs(a[k] - b[k]) <= t

Header(e) ==
    /\ UNCHANGED << seedOf, pairs >>
    /\ bad' = IF e.n = Cardinality({ k \in 1..Len(Ev) : Ev[k].e = "cell" })
                 /\ e.n = Cardinality({ s \in 1..NS : J.reg[s] # 0 }) THEN "" ELSE "wrong number of cells declared"

(* The k-th cell line is cell k; e.s is the seed at its position (a hint that *)
(* is checked), and no seed has two cells.                                    *)
CellLine(e) ==
    /\ seedOf' = Append(seedOf, e.s) /\ UNCHANGED pairs
    /\ bad' = IF e.id # Len(seedOf) + 1 THEN "cell ids are not consecutive"
              ELSE IF ~(e.s \in 1..NS) \/ e.s \in Range(seedOf) THEN "no seed, or a second cell, at this position"
              ELSE IF ~Near(e.p, J.pos[e.s], 1) THEN "cell is not at its seed"
              ELSE IF J.reg[e.s] = 0 \/ e.r # J.reg[e.s] THEN "wrong region"
              ELSE IF e.vol <= 0 THEN "cell without volume"
              ELSE ""

ConnHeader(e) ==
    /\ UNCHANGED << seedOf, pairs >>
    /\ bad' = IF e.n = Cardinality({ k \in 1..Len(Ev) : Ev[k].e = "conn" }) THEN "" ELSE "wrong number of connections declared"

(* The two seeds of a connection: an inner one joins two cells, an outer one  *)
(* (i = j) joins the cell with a seed outside; g is that seed (a hint).       *)
SeedJ(e) == IF e.i = e.j THEN e.g ELSE seedOf[e.j]

AreaVec(c) ==    \* twice the area vector of a polygon with corners c, in KV^2 units
    LET RECURSIVE sum(_)
        sum(k) == IF k >= Len(c) THEN Vec0
                  ELSE Add(sum(k + 1), Cross(Sub(c[k], c[1]), Sub(c[k + 1], c[1])))
    IN sum(2)

ConnLine(e) ==
    LET n == Len(seedOf)
        valid == e.i \in 1..n /\ e.j \in 1..n
        a == seedOf[e.i]   b == SeedJ(e)
    IN
    /\ UNCHANGED seedOf
    /\ pairs' = IF valid /\ b \in 1..NS THEN pairs \cup { Code(a, b) } ELSE pairs
    /\ bad' = IF ~valid THEN "connection to a cell that does not exist"
              ELSE IF ~(b \in 1..NS) \/ a = b THEN "outer connection to no seed outside"
              ELSE IF e.i = e.j /\ J.reg[b] # 0 THEN "outer connection towards a cell"
              ELSE IF Code(a, b) \in pairs THEN "connection listed twice"
              ELSE IF ~Near(Scale(2, e.m), Add(J.pos[a], J.pos[b]), 4) THEN "wrong midpoint"
              ELSE LET d == Sub(J.pos[b], J.pos[a])
                       t == 2 * (Abs(d[1]) + Abs(d[2]) + Abs(d[3])) + 4 * S
                   IN IF ~(Near(Cross(e.n, d), Vec0, t) /\ Dot(e.n, d) > 0
                           /\ Abs(Norm2(e.n) - S * S) <= 4 * S) THEN "wrong normal"
              ELSE IF e.a < 0 THEN "negative area"
              ELSE IF "c" \in DOMAIN e /\ ~ \* the mesher's face: area vector = file area * file normal
                      LET v == AreaVec(e.c)
                          k == CHOOSE x \in 1..3 : \A y \in 1..3 : Abs(e.n[x]) >= Abs(e.n[y])
                          s == IF (v[k] >= 0) = (e.n[k] >= 0) THEN 1 ELSE -1
                      IN Near(Scale(s, v), e.av2, 2 * e.per + 10) THEN "wrong area"
              ELSE ""

(* Closure and volume of cell i from its connections: the outward area        *)
(* vectors sum to zero and the cones from the seed add up to the volume.      *)
RECURSIVE SumVec(_, _)
SumVec(ks, f) == IF ks = << >> THEN Vec0 ELSE Add(f[ks[1]], SumVec(Tail(ks), f))
CellSums(e) ==
    LET i == e.id
        ks == e.k                        \* its connection lines (a hint that is checked)
        out(k) == IF Ev[k].i = i THEN Ev[k].av ELSE Scale(-1, Ev[k].av)
        half(k) == LET c == Ev[k]
                       a == J.pos[seedOf[i]]
                       b == J.pos[IF c.i = c.j THEN c.g ELSE IF c.i = i THEN seedOf[c.j] ELSE seedOf[c.i]]
                   IN Sub(b, a)           \* twice the vector from the seed to the face
        sum == SumVec([m \in 1..Len(ks) |-> m], [m \in 1..Len(ks) |-> out(ks[m])])
        vol == SumSeq([m \in 1..Len(ks) |->
                   LET o == out(ks[m]) h == half(ks[m])
                   IN MulDiv(o[1], h[1]) + MulDiv(o[2], h[2]) + MulDiv(o[3], h[3])])
        tolv == 8 * Len(ks) + SumSeq([m \in 1..Len(ks) |->
                   LET o == out(ks[m]) h == half(ks[m])
                   IN Quo(Abs(o[1]) + Abs(o[2]) + Abs(o[3]) + Abs(h[1]) + Abs(h[2]) + Abs(h[3]), S)])
    IN
    /\ UNCHANGED << seedOf, pairs >>
    /\ bad' = IF ~(i \in 1..Len(seedOf)) THEN "no such cell"
              ELSE IF \E m \in 1..Len(ks) : ~(Ev[ks[m]].e = "conn" /\ (Ev[ks[m]].i = i \/ Ev[ks[m]].j = i)) THEN "bad hint"
              ELSE IF ~Near(sum, Vec0, 2 * Len(ks)) THEN "faces of the cell do not close"
              ELSE IF Abs(vol - e.vol) > tolv THEN "volume is not that of the faces"
              ELSE ""

(* every face of the mesher is in the file; every cell was summed             *)
Done(e) ==
    /\ UNCHANGED << seedOf, pairs >>
    /\ bad' = IF \E k \in 1..Len(J.faces) : ~(Code(J.faces[k][1], J.faces[k][2]) \in pairs) THEN "a face is missing from the file"
              ELSE IF Cardinality({ Ev[k].id : k \in { m \in 1..Len(Ev) : Ev[m].e = "sum" } }) # Len(seedOf) THEN "cells not summed"
              ELSE ""

Next == /\ l <= Len(Ev) /\ bad = ""
        /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN
             CASE e.e = "cells" -> Header(e)
               [] e.e = "cell"  -> CellLine(e)
               [] e.e = "conns" -> ConnHeader(e)
               [] e.e = "conn"  -> ConnLine(e)
               [] e.e = "sum"   -> CellSums(e)
               [] e.e = "done"  -> Done(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE Ev[1]]
View == << job, l, bad >>
=============================================================================
