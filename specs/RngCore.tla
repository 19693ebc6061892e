------------------------------ MODULE RngCore -------------------------------
(* The uniform generator's recurrence in units of its last bit (modulus M), a  *)
(* short lag table Q: from any table and any two lag seeds the output, and     *)
(* every cell of the state, stays in 0..M-1 for ever.  Carry = FALSE leaves    *)
(* the borrow out of the wrap (a negative control).                            *)
EXTENDS Integers, Sequences
CONSTANTS M, L, Carry
VARIABLES q, ix, zx, zy, zc, c, out
vars == << q, ix, zx, zy, zc, c, out >>
In == 0..(M - 1)
Init == q \in [0..(L - 1) -> In] /\ ix = L /\ zx \in In /\ zy \in In /\ zc = 0 /\ c = 0 /\ out = 0
(* refill cell by cell, later cells use the earlier new ones                   *)
RECURSIVE Fill(_, _, _)
Fill(f, i, cy) ==
    IF i = L THEN << f, cy >>
    ELSE LET j == IF i = 0 THEN L - 1 ELSE i - 1 t == f[j] - f[i] + cy
         IN IF t > 0 THEN Fill([f EXCEPT ![i] = t - 1], i + 1, 1)
            ELSE Fill([f EXCEPT ![i] = t - 1 + M], i + 1, 0)
Next == LET t == zx - zy - zc nzy == IF t < 0 THEN t + M ELSE t
            r == IF ix < L THEN << q, c >> ELSE Fill(q, 0, c)
            u == IF ix < L THEN q[ix] ELSE r[1][0]
        IN /\ zx' = zy /\ zy' = nzy /\ zc' = (IF t < 0 THEN 1 ELSE 0)
           /\ q' = r[1] /\ c' = r[2] /\ ix' = (IF ix < L THEN ix + 1 ELSE 1)
           /\ out' = IF Carry /\ u < nzy THEN M + (u - nzy) ELSE u - nzy
Spec == Init /\ [][Next]_vars
InUnit == out \in In
StateOk == zx \in In /\ zy \in In /\ \A k \in 0..(L - 1) : q[k] \in In
=============================================================================
