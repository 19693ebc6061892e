------------------------------- MODULE TreeGen ------------------------------
(* Every short history of the point collection (Tree), to be replayed: the    *)
(* operations are enumerated here, the state they lead to is Tree's.          *)
EXTENDS Tree, TLC, Json
CONSTANTS MaxLen, MaxPts
VARIABLES hist
vars == << D, pts, lnk, hist >>
Pos == << << 0, 1 >>, << 2, 0 >>, << 1, 1 >>, << 2, 0 >> >>
Did(o) == hist' = Append(hist, o)
Init == D = 2 /\ pts = << >> /\ lnk = << >> /\ hist = << >>
AddOp == N < MaxPts /\ Add([x |-> Pos[N + 1], n |-> << N, 1 >>, a |-> << 3, N, 7 >>]) /\ Did(<< "add", 0, 0 >>)
LinkOps == \E i, j \in 1..N : i # j /\ (\/ Link1(i, j) /\ Did(<< "link1", i, j >>)
                                        \/ i < j /\ Link2(i, j) /\ Did(<< "link2", i, j >>))
SetOps == \E i \in 1..N : i = 1 /\ SetInt(i, 1, 40 + Len(hist)) /\ Did(<< "seti", i, 40 + Len(hist) >>)
Rest == \/ N > 0 /\ Unlink /\ Did(<< "unlink", 0, 0 >>)
        \/ N > 0 /\ UNCHANGED state /\ Did(<< "balance", 0, 0 >>)
        \/ N > 0 /\ UNCHANGED state /\ Did(<< "renumber", 0, 0 >>)
        \/ N > 0 /\ Unlink /\ Did(<< "saveload", 0, 0 >>)
        \/ Empty(2) /\ Did(<< "clear", 0, 0 >>)
Next == Len(hist) < MaxLen /\ (AddOp \/ LinkOps \/ SetOps \/ Rest)
Spec == Init /\ [][Next]_vars
LinksIn == \A i \in 1..N : lnk[i] \subseteq (1..N) \ { i }
Emit == Len(hist) = MaxLen => PrintT("J:" \o ToJson(hist))
=============================================================================
