------------------------------ MODULE KdTreeGen -----------------------------
(* All insertion orders of KdTree, printed for replay.                        *)
EXTENDS KdTree, Json
Emit == Len(P) > 0 => PrintT("J:" \o ToJson(P))
=============================================================================
