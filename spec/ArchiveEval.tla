----------------------------- MODULE ArchiveEval -----------------------------
EXTENDS Archive, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
ToSet2(s) == {s[i] : i \in 1..Len(s)}
VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ LET c == Cases[i'] L == ToSet2(c.links) IN
           PrintT("@@" \o ToJson([id |-> c.id, verdict |-> VerdictOn(c.dest, L, c.disk, c.ms),
                                  files |-> Content(c.dest, L, c.ms), dirs |-> Dirs(c.dest, c.ms)]))
Spec == Init /\ [][Next]_i
=============================================================================
