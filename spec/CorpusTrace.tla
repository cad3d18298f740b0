----------------------------- MODULE CorpusTrace ------------------------------
(* Judges recorded observations: each case is a corpus and a sequence of
   observations by several handles; `bad` lists the wrong ones.               *)
EXTENDS Corpus, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, known, bad
vars == <<c, k, known, bad>>
Init == c = 1 /\ k = 0 /\ known = {} /\ bad = <<>>
\* known: <<view, index, id>>
Of(v, K) == {<<t[2], t[3]>> : t \in {t \in K : t[1] = v}}
Event == /\ c <= Len(Cases) /\ k < Len(Cases[c].events)
         /\ k' = k + 1 /\ c' = c
         /\ LET e == Cases[c].events[k'] v == e.view
                K == Of(v, known) \cup Learn(e)
                right == Right(Cases[c].world, e) fit == Consistent(K)
            IN /\ known' = (IF right /\ fit THEN {t \in known : t[1] # v} \cup {<<v, p[1], p[2]>> : p \in K} ELSE known)
               /\ bad' = (IF right /\ fit THEN bad ELSE Append(bad, [k |-> k', why |-> IF right THEN "order" ELSE "content"]))
EndCase == /\ c <= Len(Cases) /\ k = Len(Cases[c].events)
           /\ PrintT("@@" \o ToJson([id |-> Cases[c].id, bad |-> bad]))
           /\ c' = c + 1 /\ k' = 0 /\ known' = {} /\ bad' = <<>>
Next == Event \/ EndCase
Spec == Init /\ [][Next]_vars
===============================================================================
