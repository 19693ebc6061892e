------------------------------ MODULE ListsGen ------------------------------
(* Every array of at most N keys out of 0..K-1 with every range of it, and     *)
(* every first room with every number of appends, written as stimuli.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS N, K, A
VARIABLE out
Sorts == UNION { UNION { { << x, a, b >> : x \in [1..n -> 0..(K - 1)] } : a \in 1..n, b \in 1..n } : n \in 1..N }
Init == out = 0
Next == out = 0 /\ out' = 1
        /\ ndJsonSerialize(IOEnv.OUT, [k \in 1..1 |-> [sorts |-> { t \in Sorts : t[2] <= t[3] }, lists |-> { << c, n >> : c \in 1..4, n \in 0..A }]])
Spec == Init /\ [][Next]_out
=============================================================================
