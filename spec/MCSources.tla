------------------------------- MODULE MCSources ------------------------------
(* The loading loop for one speaker as a machine: a pool of utterances not yet
   used in this round, refilled when empty.  Flaw "again" draws with
   replacement, "late" checks the length one utterance too late, "early" stops
   when the last utterance would overshoot.                                    *)
EXTENDS Sources, TLC
CONSTANTS Flaw, MaxLen, MaxTarget
VARIABLES us, target, pool, ids, total, done
vars == <<us, target, pool, ids, total, done>>
U(i, n) == [id |-> i, len |-> n, rate |-> 1, base |-> 100 * i]
Init == /\ us \in UNION {{[i \in 1..n |-> U(i, f[i])] : f \in [1..n -> 0..MaxLen]} : n \in 1..3}
        /\ \E i \in 1..Len(us) : us[i].len > 0
        /\ target \in 1..MaxTarget /\ pool = Ids(us) /\ ids = <<>> /\ total = 0 /\ done = FALSE
Enough == IF Flaw = "late" THEN total > target
          ELSE IF Flaw = "early" THEN \E i \in pool : ids # <<>> /\ total + Utt(us, i).len > target
          ELSE total >= target
Draw == /\ ~done /\ ~Enough
        /\ \E i \in (IF pool = {} THEN Ids(us) ELSE pool) :
             /\ ids' = Append(ids, i) /\ total' = total + Utt(us, i).len
             /\ pool' = (IF Flaw = "again" THEN Ids(us) ELSE (IF pool = {} THEN Ids(us) ELSE pool) \ {i})
        /\ UNCHANGED <<us, target, done>>
Stop == ~done /\ Enough /\ done' = TRUE /\ UNCHANGED <<us, target, pool, ids, total>>
Next == Draw \/ Stop
Spec == Init /\ [][Next]_vars
Result == [ids |-> ids, sig |-> SubSeq(Concat(us, ids), 1, IF total < target THEN total ELSE target)]
Right == done => SourceWrong(us, Result, target) = ""
RightLoop == total = Total(us, ids) /\ (Flaw = "" => Fair(us, ids))
Bounded == Len(ids) < 3 * MaxTarget + 3
===============================================================================
