---------------------------- MODULE AcousticsEval ----------------------------
EXTENDS Acoustics, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Cases[i'] IN
    PrintT("@@" \o ToJson([id |-> c.id, vol |-> Volume(c.s), surf |-> Surface(c.s), absorb |-> Absorb(c.s, c.b),
        att |-> Attainable(c.s, c.t),
        n |-> [k \in 1..Len(c.s) |-> ImageCount(c.tm, c.c, c.s, k)],
        dot |-> [k \in 1..Len(c.s) |-> OnTheDot(c.tm, c.c, c.s, k)]]))
Spec == Init /\ [][Next]_i
=============================================================================
