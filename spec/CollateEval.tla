----------------------------- MODULE CollateEval ------------------------------
EXTENDS Collate, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Cases[i'] IN
    PrintT("@@" \o ToJson([items |-> c.items, batch |-> Batch(c.items, c.pad), pad |-> c.pad]))
Spec == Init /\ [][Next]_i
===============================================================================
