------------------------------ MODULE Regions ------------------------------
(* V03, the merging of provisional labels.  Seeds of one component of space   *)
(* may carry several labels (one per piece of its boundary).  Two interior    *)
(* seeds that are neighbours in the mesh are in one component, so each such   *)
(* contact links two labels.  Contacts are met in any order, one at a time,   *)
(* and only a representative per label is kept.  The design claim: whatever   *)
(* the order, two labels end with one representative exactly when the         *)
(* contacts connect them, and no representative is larger than its label.     *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT NL                  \* labels 1..NL
VARIABLES seen, rep
vars == << seen, rep >>
Labels == 1..NL
Contacts == { S \in SUBSET Labels : Cardinality(S) = 2 }

Init == seen = {} /\ rep = [a \in Labels |-> a]

RECURSIVE Root(_, _)
Root(r, a) == IF r[a] = a THEN a ELSE Root(r, r[a])

Meet(S) ==
    /\ seen' = seen \cup { S }
    /\ LET R == { Root(rep, a) : a \in S }
           lo == CHOOSE x \in R : \A y \in R : x <= y
       IN rep' = [a \in Labels |-> IF a \in R THEN lo ELSE rep[a]]
Next == \E S \in Contacts \ seen : Meet(S)
Spec == Init /\ [][Next]_vars

(* reachability by the contacts met so far                                    *)
RECURSIVE Closure(_, _)
Closure(X, L) == LET Y == X \cup UNION { S \in L : S \cap X # {} }
                 IN IF Y = X THEN X ELSE Closure(Y, L)
Exact == \A a, b \in Labels : (Root(rep, a) = Root(rep, b)) <=> (b \in Closure({ a }, seen))
Lowest == \A a \in Labels : rep[a] <= a
=============================================================================
