----------------------------- MODULE RegionsGen -----------------------------
(* Generates the label worlds replayed into the program: every way to fill a  *)
(* small grid of cells with walls (0) and labels, all labels 1..k in use.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, NL, MaxWall
VARIABLE w
Init == w = << >>
Put(a) == Len(w) < N /\ w' = Append(w, a)
          /\ (a = 0 => Cardinality({ k \in 1..Len(w) : w[k] = 0 }) < MaxWall)
Next == \E a \in 0..NL : Put(a)
Spec == Init /\ [][Next]_w
Used == { w[k] : k \in 1..Len(w) } \ { 0 }
Emit == (Len(w) = N /\ Used # {} /\ \A a \in Used : \A b \in 1..a : b \in Used) => PrintT("J:" \o ToJson(w))
=============================================================================
