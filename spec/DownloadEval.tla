---------------------------- MODULE DownloadEval ----------------------------
(* Judges recorded runs of the real code against the obligations of C12.
   A trace is a sequence of records:
     [k |-> "look",  arch |-> "none"/"whole"/"partial"]         before every effect
     [k |-> "fetch", run |-> r, got |-> "T"/"C"/"G"]
     [k |-> "disk",  run |-> r]                                  the disk refuses one of its effects
     [k |-> "end",   run |-> r, out |-> "ok"/"err"/"killed", data |-> "none"/"part"/"full", dl |-> BOOLEAN]
   preceded by the initial state.  Must is the model's (Download.tla).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
D == INSTANCE Download WITH Runs <- {1}, MaxT <- 0, MaxC <- 0, MaxK <- 0, MaxD <- 0, InitArch <- {"none"}, InitData <- {"none"},
       Flaws <- {}, Emit1 <- FALSE, arch <- 0, data <- 0, tmp <- 0, pc <- 0, tryT <- 0, tryC <- 0, opened <- 0,
       nT <- 0, nC <- 0, nK <- 0, nD <- 0, script <- 0, fetches <- 0, from <- 0
Cases == ndJsonDeserialize(IOEnv.CASES)

Ends(c) == {i \in 1..Len(c.ev) : c.ev[i].k = "end"}
ScriptOf(c, r, lo, hi) ==
    LET F == SelectSeq(SubSeq(c.ev, lo, hi), LAMBDA e : e.k = "fetch" /\ e.run = r)
    IN [i \in 1..Len(F) |-> F[i].got]
\* events of run r up to its end i start after the previous end of r (a restart)
Start(c, i) == LET P == {j \in Ends(c) : j < i /\ c.ev[j].run = c.ev[i].run}
               IN IF P = {} THEN 1 ELSE (CHOOSE j \in P : \A q \in P : q <= j) + 1
Whole(c) == \A i \in 1..Len(c.ev) : c.ev[i].k = "look" => c.ev[i].arch # "partial"
Fine(c, i) ==
    LET e == c.ev[i]
        s == ScriptOf(c, e.run, Start(c, i), i)
        \* another run's corrupt delivery can be the archive this run opens
        others == Cardinality({j \in 1..i : c.ev[j].k = "fetch" /\ c.ev[j].run # e.run /\ c.ev[j].got = "C"})
        hurt(a, b, r) == \E j \in a..b : c.ev[j].k = "disk" /\ c.ev[j].run = r
        me == hurt(Start(c, i), i, e.run)
        kills == Cardinality({j \in Ends(c) : j < i /\ (c.ev[j].out = "killed" \/ hurt(1, j, c.ev[j].run))})
    IN CASE e.out = "killed" -> ""
         [] e.out = "ok" /\ e.data # "full" -> "a run reported success without the complete dataset"
         [] e.out = "ok" -> IF ~e.dl /\ s # <<>> THEN "something was fetched although downloading was off"
                            ELSE IF c.data = "full" /\ s # <<>> THEN "a dataset that was present was fetched again"
                            ELSE IF c.arch = "good" /\ s # <<>> /\ kills = 0 /\ others = 0 /\ ~me
                                 THEN "an archive that was present was fetched again"
                            ELSE IF D!Count(s, "G") > 1 /\ others = 0 /\ ~me THEN "a good archive was fetched twice"
                            ELSE ""
         [] ~e.dl -> IF s # <<>> THEN "something was fetched although downloading was off"
                     ELSE IF e.data = "full" THEN "present data was refused" ELSE ""
         [] me -> ""        \* refused by the disk: it may give up
         [] OTHER -> IF others = 0 /\ kills = 0 /\ D!Must(c.arch, c.data, Append(s, "G")) = "ok"
                        /\ D!Count(s, "T") <= 1 /\ D!Count(s, "C") + (IF c.arch = "bad" THEN 1 ELSE 0) <= 1
                     THEN "a run failed although each fault happened at most once"
                     ELSE IF kills > 0 /\ D!Count(s, "T") = 0 /\ D!Count(s, "C") = 0 /\ others = 0 /\ c.arch # "bad"
                     THEN "a run after a kill failed without any fault of its own" ELSE ""
Verdict(c) == IF ~Whole(c) THEN "the archive path held a partial transfer"
              ELSE LET B == {i \in Ends(c) : Fine(c, i) # ""}
                   IN IF B = {} THEN "" ELSE Fine(c, CHOOSE i \in B : \A j \in B : i <= j)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("@@" \o ToJson([id |-> Cases[i'].id, bad |-> Verdict(Cases[i'])]))
Spec == Init /\ [][Next]_i
=============================================================================
