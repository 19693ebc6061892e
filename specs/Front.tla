------------------------------- MODULE Front -------------------------------
(* V08, the design of the parallel front.  Seeds live on a line of N sites.   *)
(* In every round an independent set of front seeds is activated: two active  *)
(* seeds are at least FAR/2 times the sum of their sizes apart.  The active   *)
(* seeds are worked on in parallel: each looks at the seeds of the previous   *)
(* round only (its snapshot) and throws darts up to twice its size away; a    *)
(* dart outside every ball of the snapshot and of its own new seeds becomes a *)
(* seed, sized from its closest seed by the Lipschitz constant LIP/2.         *)
(*                                                                            *)
(* TLC explores every activation, every dart and every interleaving.  With    *)
(* FAR = 2 * (3 + 2 L) no two seeds end up closer than the smaller size; the  *)
(* model also shows that a smaller factor (FrontBad.cfg) does break it.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, RMAX, LIP, FAR, ROUNDS
VARIABLES seeds,     \* set of <<site, size>>, the snapshot of the round
          front,     \* seeds still to be worked on
          active,    \* seeds being worked on
          new,       \* [active seed -> set of seeds it has thrown]
          round
vars == << seeds, front, active, new, round >>
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
D(a, b) == Abs(a[1] - b[1])
(* sizes are in sites; initial seeds at both ends *)
Init == /\ seeds \in { { << 0, a >>, << N, b >> } : a, b \in 1..2 }
        /\ front = seeds /\ active = {} /\ new = << >> /\ round = 0
Independent(A) == \A a, b \in A : a = b \/ 2 * D(a, b) >= FAR * (a[2] + b[2])
Activate ==
    /\ active = {} /\ front # {} /\ round < ROUNDS
    /\ \E A \in SUBSET front :
         /\ A # {} /\ Independent(A)
         /\ active' = A /\ front' = front \ A
         /\ new' = [a \in A |-> {}] /\ round' = round + 1
    /\ UNCHANGED seeds
Dart(a) ==
    \E x \in 0..N :
      LET own == new[a]
          dist(s) == Abs(s[1] - x)
          near == CHOOSE s \in seeds : \A t \in seeds : dist(s) < dist(t) \/ (dist(s) = dist(t) /\ s[2] <= t[2])
          sz == Min2(RMAX, near[2] + (LIP * dist(near)) \div 2)
      IN /\ dist(a) >= a[2] /\ dist(a) <= 2 * a[2]
         /\ \A s \in seeds \cup own : dist(s) >= s[2]
         /\ new' = [new EXCEPT ![a] = @ \cup { << x, sz >> }]
         /\ UNCHANGED << seeds, front, active, round >>
Finish ==
    /\ active # {}
    /\ LET all == UNION { new[a] : a \in active } IN
         /\ seeds' = seeds \cup all /\ front' = front \cup all
    /\ active' = {} /\ new' = << >> /\ UNCHANGED round
Next == Activate \/ (\E a \in active : Dart(a)) \/ Finish
Spec == Init /\ [][Next]_vars
All == seeds \cup (IF active = {} THEN {} ELSE UNION { new[a] : a \in active })
Separated == \A a, b \in All : a[1] = b[1] \/ D(a, b) >= Min2(a[2], b[2])
Apart == \A a, b \in All : a[1] = b[1] => a = b
=============================================================================
