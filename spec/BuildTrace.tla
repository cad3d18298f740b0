----------------------------- MODULE BuildTrace -------------------------------
(* Judges recorded histories (what was on disk before and after each build) and
   the scenes they left.                                                       *)
EXTENDS Build, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Bad(c) == {k \in 1..Len(c.steps) : LET s == c.steps[k] IN ~Allowed(s.before, s.op, s.end, s.after)}
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Cases[i'] IN
    PrintT("@@" \o ToJson(IF "steps" \in DOMAIN c THEN [id |-> c.id, bad |-> Bad(c)]
                          ELSE [id |-> c.id, wrong |-> SceneWrong(c.scene)]))
Spec == Init /\ [][Next]_i
===============================================================================
