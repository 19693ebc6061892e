----------------------------- MODULE DeckTrace ------------------------------
(* Recorded runs of the program on decks.                                      *)
EXTENDS Deck, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES job, l, bad
vars == << job, l, bad >>
Ev == Jobs[job].ev
Init == job \in 1..Len(Jobs) /\ l = 1 /\ bad = ""
Echo(e) == IF EchoOk(Meaning(e.d), e.echo) THEN "" ELSE "the parameters in use are not those of the deck"
Ended(e) == LET p == Meaning(e.d) IN
            IF ~EchoOk(p, e.echo) THEN "the parameters in use are not those of the deck"
            ELSE IF ~FilesOk(p, e.files) THEN "the files produced are not those the deck asks for" ELSE ""
(* runs of decks with the same meaning end alike; out numbers the outcomes     *)
Alike(e) == IF \A i, j \in 1..Len(e.ds) : Meaning(e.ds[i]) = Meaning(e.ds[j]) => e.out[i] = e.out[j] THEN "" ELSE "decks that mean the same give different results"
(* no deck, or no option                                                       *)
Cli(e) == CASE e.want = "help" -> IF e.rc = 0 /\ e.usage = 1 /\ e.files = << >> THEN "" ELSE "help is not given"
            [] e.want = "method" -> IF e.rc # 0 /\ e.usage = 1 /\ e.files = << >> THEN "" ELSE "a wrong method is not reported"
            [] e.want = "nodeck" -> IF e.told = 1 /\ e.files = << >> THEN "" ELSE "a deck that cannot be opened is not reported"
Next == /\ l <= Len(Ev) /\ bad = "" /\ l' = l + 1 /\ UNCHANGED job
        /\ LET e == Ev[l] IN bad' = CASE e.e = "echo" -> Echo(e) [] e.e = "ended" -> Ended(e) [] e.e = "alike" -> Alike(e) [] e.e = "cli" -> Cli(e)
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
View == << job, l, bad >>
Alias == [job |-> job, l |-> l, bad |-> bad, ev |-> IF l > 1 THEN Ev[l - 1] ELSE << >>]
=============================================================================
