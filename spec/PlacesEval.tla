----------------------------- MODULE PlacesEval -----------------------------
EXTENDS Places, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Judge(c) == IF c.what = "sample"
            THEN [id |-> c.id, demand |-> Demand(c.r),
                  bad |-> IF c.out = "ok" THEN (IF Demand(c.r) = "cannot" THEN "an unsatisfiable request was answered"
                                                ELSE IF ~SampleOk(c.r, c.ps) THEN "a position violates the request"
                                                ELSE IF c.n = 1 /\ ~Reaches(c.r, c.ps) THEN "permitted places are never drawn" ELSE "")
                          ELSE IF Demand(c.r) = "must" THEN "a satisfiable request failed" ELSE "",
                  ys |-> <<>>]
            ELSE [id |-> c.id, demand |-> "", bad |-> "",
                  ys |-> IF c.what = "clamp" THEN [k \in 1..Len(c.ps) |-> [j \in 1..Len(c.ps[k]) |-> Clamp(c.ps[k][j], c.r.size[j], c.r.margin)]]
                         ELSE [k \in 1..c.n |-> [j \in 1..Len(c.a) |-> Line(c.a[j], c.b[j], c.n, k)]]]
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("@@" \o ToJson(Judge(Cases[i'])))
Spec == Init /\ [][Next]_i
=============================================================================
