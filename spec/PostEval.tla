------------------------------ MODULE PostEval ------------------------------
EXTENDS Post, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Emit(c) == [id |-> c.id, n |-> Count(c.fs, c.tmax, c.den, c.ns),
            tail |-> HasTail(c.fs, c.tmax, c.tdiff, c.den, c.ns),
            onset |-> Onset(c.fs, c.tdiff, c.den)]
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ PrintT("@@" \o ToJson(Emit(Cases[i + 1])))
Spec == Init /\ [][Next]_i
=============================================================================
