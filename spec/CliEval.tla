------------------------------ MODULE CliEval ------------------------------
EXTENDS Cli, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ LET c == Cases[i']
               r == IF c.which = "build" THEN Read(BuildTable, BuildDefaults, c.line)
                    ELSE Read(OutTable(c.conf), OutDefaults(c.conf), c.line)
           IN PrintT("@@" \o ToJson([id |-> c.id, r |-> r]))
Spec == Init /\ [][Next]_i
=============================================================================
