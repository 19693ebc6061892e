----------------------------- MODULE KernelGen ------------------------------
(* Every triangle (also degenerate) with corners on a small grid with every    *)
(* point of a larger one, and every set of 2 to 4 centres on the small grid.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Full
VARIABLE out
G == { << 2 * x, 2 * y, 2 * z >> : x \in 0..1, y \in 0..1, z \in 0..1 } \cup { << 1, 1, 0 >>, << 2, 0, 1 >> }
P == { << x, y, z >> : x \in { -1, 1, 3 }, y \in { -1, 0, 3 }, z \in { -2, 0, 1 } }
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
Tri == { << a, b, c >> : a \in G, b \in G, c \in G }
Cen == { << a, b >> : a \in G, b \in G } \cup { t \in Tri : Less(t[1], t[2]) /\ Less(t[2], t[3]) }
       \cup (IF Full THEN { << a, b, c, d >> : a \in G, b \in G, c \in G, d \in G } ELSE { << a, b, c, << 0, 2, 2 >> >> : a \in G, b \in G, c \in G })
Init == out = 0
Next == out = 0 /\ out' = 1 /\ ndJsonSerialize(IOEnv.OUT, [k \in 1..1 |-> [tri |-> Tri, p |-> P, cen |-> Cen]])
Spec == Init /\ [][Next]_out
=============================================================================
