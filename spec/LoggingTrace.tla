----------------------------- MODULE LoggingTrace ------------------------------
(* A recorded history: setups (a refused one changes nothing) and requests for
   loggers; after each, what every logger emitted at every level.              *)
EXTENDS Logging, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Cfg(steps, k) == LET C[j \in 0..k] == IF j = 0 THEN Fresh ELSE
                       IF steps[j].op = "setup" /\ steps[j].valid THEN Setup(C[j - 1], steps[j].node, steps[j].level, j, steps[j].prop)
                       ELSE IF steps[j].op = "attach" THEN Attach(C[j - 1], steps[j].node, steps[j].level)
                       ELSE C[j - 1] IN C[k]
StepOk(steps, k) == LET s == steps[k] cfg == Cfg(steps, k) IN
    /\ s.op = "setup" => s.accepted = s.valid
    /\ s.op = "get" => s.got = Named(s.segs)
    /\ \A x \in 1..Len(s.seen) : LET e == s.seen[x] IN e.out = Emitted(cfg, e.node, e.level)
Wrong(c) == {k \in 1..Len(c.steps) : ~StepOk(c.steps, k)}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
Why(c, k) == LET s == c.steps[k] cfg == Cfg(c.steps, k)
                 B == {x \in 1..Len(s.seen) : s.seen[x].out # Emitted(cfg, s.seen[x].node, s.seen[x].level)} IN
    IF B = {} THEN [at |-> k] ELSE LET e == s.seen[First(B)] IN
    [at |-> k, node |-> e.node, level |-> e.level, out |-> e.out, want |-> Emitted(cfg, e.node, e.level)]
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ LET c == Cases[i'] W == Wrong(c) IN
    PrintT("@@" \o ToJson([id |-> c.id, bad |-> W, why |-> IF W = {} THEN [at |-> 0] ELSE Why(c, First(W))]))
Spec == Init /\ [][Next]_i
===============================================================================
