------------------------------ MODULE LoaderEval ------------------------------
EXTENDS Loader, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Cases[i'] IN
    PrintT("@@" \o ToJson([n |-> c.n, yields |-> Yields(c.items, c.order, c.size, c.drop, 0)]))
Spec == Init /\ [][Next]_i
===============================================================================
