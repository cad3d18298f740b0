---- MODULE MetadataEval ----
EXTENDS Metadata, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ PrintT("@@" \o ToJson([id |-> Cases[i + 1].id] @@ Describe(Cases[i + 1])))
Spec == Init /\ [][Next]_i
====
