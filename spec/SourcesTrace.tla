----------------------------- MODULE SourcesTrace -----------------------------
EXTENDS Sources, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Cases[i'] IN
    PrintT("@@" \o ToJson([id |-> c.id, wrong |-> Judge(c.names, c.utts, c.num, c.ms, c.out, c.loads)]))
Spec == Init /\ [][Next]_i
===============================================================================
