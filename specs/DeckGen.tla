------------------------------ MODULE DeckGen -------------------------------
(* Every deck of up to N lines of a small alphabet: neither noise nor the      *)
(* order of different keys matters, the last value of a key wins, and a key    *)
(* sets nothing but its own parameter.  All decks of up to M lines are         *)
(* written out to be run.                                                      *)
EXTENDS Deck, Json, IOUtils
CONSTANTS N, M
VARIABLES d
L(k, v, s) == [k |-> k, v |-> v, s |-> s]
Alpha == { L("INPUT_MESH_FILE", 0, "a.obj"), L("INPUT_MESH_FILE", 0, "b.obj"), L("SIZING_FILE", 0, "s1.csv"), L("SIZING_FILE", 0, "s2.csv"), L("SEEDS_FILE", 0, "q1.csv"),
           L("R_MIN", 10000, ""), L("R_MAX", 500000, ""), L("R_MAX", 7000000, ""), L("LIP_CONST", 250000, ""), L("VC_ANGLE", 60000000, ""), L("NUM_THREADS", 4, ""),
           L("GENERATE_VCG_FILE", 0, ""), L("GENERATE_EXODUS_FILE", 0, ""), L("GENERATE_MONITORING_POINTS", 0, ""), L("IMPOSE_MONITORING_POINTS", 0, ""), L("GENERATE_MESH_FROM_SEEDS", 0, ""),
           L("noise", 0, "") }
Init == d = << >>
Next == Len(d) < N /\ \E x \in Alpha : d' = Append(d, x)
Spec == Init /\ [][Next]_d
Without(i) == [j \in 1..(Len(d) - 1) |-> IF j < i THEN d[j] ELSE d[j + 1]]
Swap(i) == [d EXCEPT ![i] = d[i + 1], ![i + 1] = d[i]]
Field == [INPUT_MESH_FILE |-> "models", SIZING_FILE |-> "sizing", SEEDS_FILE |-> "seeds", R_MIN |-> "rmin", R_MAX |-> "rmax", LIP_CONST |-> "lip", VC_ANGLE |-> "ang", NUM_THREADS |-> "thr",
          GENERATE_VCG_FILE |-> "vcg", GENERATE_EXODUS_FILE |-> "exo", GENERATE_MONITORING_POINTS |-> "gen", IMPOSE_MONITORING_POINTS |-> "imp", GENERATE_MESH_FROM_SEEDS |-> "from", noise |-> ""]
NoiseFree == \A i \in 1..Len(d) : d[i].k = "noise" => Meaning(Without(i)) = Meaning(d)
Orderless == \A i \in 1..(Len(d) - 1) : d[i].k # d[i + 1].k => Meaning(Swap(i)) = Meaning(d)
LastWins == \A i \in 1..(Len(d) - 1) : d[i].k = d[i + 1].k /\ d[i].k # "INPUT_MESH_FILE" => Meaning(Without(i)) = Meaning(d)
OwnOnly == \A i \in 1..Len(d) : \A f \in DOMAIN Default : f # Field[d[i].k] => Meaning(Without(i))[f] = Meaning(d)[f]
RECURSIVE Decks(_)
Decks(n) == IF n = 0 THEN { << >> } ELSE LET P == Decks(n - 1) IN P \cup { Append(x, a) : x \in { y \in P : Len(y) = n - 1 }, a \in Alpha }
ASSUME IOEnv.OUT = "" \/ ndJsonSerialize(IOEnv.OUT, << [decks |-> Decks(M)] >>)
=============================================================================
