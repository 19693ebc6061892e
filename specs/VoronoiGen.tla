----------------------------- MODULE VoronoiGen -----------------------------
(* Generates seed sets for the mesher: every way to place up to MaxSeeds      *)
(* seeds, each a cell or a ghost, on the points of a small grid.  Placement   *)
(* is in increasing order of points, so each seed set is one state.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NX, NY, NZ, MaxSeeds, MaxGhost
VARIABLES w      \* sequence of <<point number, ghost?>>
NPts == NX * NY * NZ
Init == w = << >>
Last == IF w = << >> THEN 0 ELSE w[Len(w)][1]
Ghosts == Cardinality({ k \in 1..Len(w) : w[k][2] = 1 })
Place(p, g) == /\ p > Last /\ Len(w) < MaxSeeds
               /\ g = 1 => Ghosts < MaxGhost
               /\ w' = Append(w, << p, g >>)
Next == \E p \in 1..NPts, g \in {0, 1} : Place(p, g)
Spec == Init /\ [][Next]_w
Emit == (\E k \in 1..Len(w) : w[k][2] = 0) => PrintT("J:" \o ToJson(w))
=============================================================================
