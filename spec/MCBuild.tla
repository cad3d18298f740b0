------------------------------- MODULE MCBuild --------------------------------
(* All histories of builds in one place.  Flaw "eager" deletes before it has
   looked at the request, "merge" writes into what is there, "force" ignores
   that overwriting was not allowed.                                           *)
EXTENDS Build, TLC, Json
CONSTANTS Depth, Flaw
Ops == [req : {"A", "B"}, valid : {"yes"}, ow : BOOLEAN, fault : {"none", "kill", "disk"}]
       \cup [req : {"A"}, valid : {"early", "late"}, ow : BOOLEAN, fault : {"none"}]
Start == {Absent, [k |-> "kept", req |-> ""]}
VARIABLES disk, hist, asked, wrong, first
vars == <<disk, hist, asked, wrong, first>>
Init == disk \in Start /\ first = disk /\ hist = <<>> /\ asked = FALSE /\ wrong = FALSE
Step(op, end, after) ==
    /\ disk' = after /\ hist' = Append(hist, op) /\ first' = first
    /\ asked' = (asked \/ (op.ow /\ op.valid # "early"))
    /\ wrong' = (wrong \/ ~Allowed(disk, op, end, after) \/ (end = "ok" /\ after # Data(op.req)))
Do(op) ==
    CASE Flaw = "eager" /\ op.valid = "early" /\ op.ow /\ disk # Absent -> Step(op, "error", Absent)
      [] Flaw = "merge" /\ op.valid = "yes" /\ op.ow /\ disk # Absent /\ disk # Data(op.req) -> Step(op, "ok", Mess)
      [] Flaw = "force" /\ op.valid = "yes" /\ ~op.ow /\ op.fault = "none" -> Step(op, "ok", Data(op.req))
      [] Flaw = "swallow" /\ op.fault = "disk" /\ KilledResults(disk, op) # {disk} -> Step(op, "ok", Mess)
      [] OTHER -> \/ op.fault = "none" /\ \E r \in Results(disk, op) : Step(op, r.end, r.disk)
                  \/ op.fault = "disk" /\ \E r \in HurtResults(disk, op) : Step(op, r.end, r.disk)
                  \/ op.fault = "kill" /\ \E d \in KilledResults(disk, op) : Step(op, "killed", d)
Next == Len(hist) < Depth /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Fine == ~wrong
\* what the user had is lost only after a request that was allowed to
Unasked == first.k = "kept" /\ disk # first => asked
Complete == hist # <<>> /\ disk.k = "data" => \E i \in 1..Len(hist) : hist[i].req = disk.req /\ hist[i].valid = "yes"
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([first |-> first.k, hist |-> hist]))
View == <<disk, hist, asked, wrong, first>>
===============================================================================
