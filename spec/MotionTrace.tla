----------------------------- MODULE MotionTrace ------------------------------
EXTENDS Motion, TLC, Json, IOUtils, Functions
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Scene(c) == [c EXCEPT !.movers = Range(c.movers)]
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Scene(Cases[i']) IN
    PrintT("@@" \o ToJson([id |-> c.id, wrong |-> SceneWrong(c), moving |-> Cardinality(Moving(c))]))
Spec == Init /\ [][Next]_i
===============================================================================
