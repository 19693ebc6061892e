------------------------------ MODULE RngTrace ------------------------------
(* Recorded generators against Rng.  gen: id -> [key, pos, ops]; known: key -> *)
(* stream of draws; res: results of samplers, keyed by seed and history.       *)
EXTENDS Rng, TLC, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, gen, known, res, bad
vars == << job, l, gen, known, res, bad >>
Ev == Jobs[job].ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ gen = << >> /\ known = << >> /\ res = << >> /\ bad = ""
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE << >>
Seed(e) == /\ gen' = Put(gen, e.id, [key |-> e.key, pos |-> 0, ops |-> << >>]) /\ UNCHANGED << known, res >> /\ bad' = ""
Draw(e) == LET g == gen[e.id] k == Get(known, g.key) IN
    /\ gen' = [gen EXCEPT ![e.id].pos = @ + Len(e.v)] /\ UNCHANGED res
    /\ known' = Put(known, g.key, Extend(k, g.pos, e.v))
    /\ bad' = IF \E i \in 1..Len(e.h) : ~(e.h[i] \in 0..1048575) THEN "a uniform number is outside [0,1)"
              ELSE IF ~Agrees(k, g.pos, e.v) THEN "two generators of the same seed give different streams" ELSE ""
(* a sampler's batch: the same seed and history must give the same results     *)
Op(e) == LET g == gen[e.id] h == Append(g.ops, e.op) k == << g.key, h >> IN
    /\ gen' = [gen EXCEPT ![e.id].ops = h] /\ UNCHANGED known
    /\ res' = IF k \in DOMAIN res THEN res ELSE Put(res, k, e.v)
    /\ bad' = IF k \in DOMAIN res /\ res[k] # e.v THEN "the same seed and history give different samples"
              ELSE CASE e.t = "box" -> IF \E i \in 1..Len(e.f) : ~InBox(e.f[i], e.c[i], e.lo, e.hi) THEN "a sample lies outside its box" ELSE ""
                     [] e.t = "sphere" -> IF \E i \in 1..Len(e.q) : ~OnSphere(e.q[i], e.k, 8) THEN "a sample lies off the unit sphere" ELSE ""
                     [] e.t = "simplex" -> IF \E i \in 1..Len(e.p) : ~InSimplex(e.p[i], e.x, e.w[i], e.k, 3) THEN "a sample lies outside its simplex" ELSE ""
                     [] e.t = "cdf" -> IF \E i \in 1..Len(e.s) : ~(e.s[i] \in 1..Len(e.w)) THEN "a discrete draw is no entry"
                                       ELSE IF (\E i \in 1..Len(e.w) : e.w[i] > 0) /\ \E i \in 1..Len(e.s) : e.w[e.s[i]] = 0 THEN "a discrete draw returned an entry of zero weight" ELSE ""
Hist(e) == /\ UNCHANGED << gen, known, res >>
           /\ bad' = IF SumTo(e.c, Len(e.c)) # e.n \/ ~Fair(e.c, e.w, e.n) THEN "samples are not spread as their weights" ELSE ""
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN CASE e.e = "seed" -> Seed(e) [] e.e = "draw" -> Draw(e) [] e.e = "op" -> Op(e) [] e.e = "hist" -> Hist(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1].e ELSE ""]
=============================================================================
