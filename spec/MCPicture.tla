------------------------------- MODULE MCPicture -------------------------------
(* The player as a state machine over small scenes: what frames must satisfy.  *)
EXTENDS Picture, TLC
CONSTANTS MaxT, MaxStep, Flaw
VARIABLES sc, i
vars == <<sc, i>>
P == {<<1, 1>>, <<2, 1>>, <<2, 3>>}
Mk(st, mt, step) == [room |-> <<4, 4>>, src |-> <<<<1, 1>>>>, mic |-> <<<<3, 3>>>>, st |-> st, mt |-> mt, step |-> step,
                     start |-> TRUE, label |-> TRUE, len |-> 100, fs |-> 10, fps |-> 0]
Ts == UNION {[1..T -> {<<p>> : p \in P}] : T \in 1..MaxT}
Init == /\ i = 1
        /\ \E t \in Ts, s \in 1..MaxStep, who \in {"src", "mic"} :
              sc = (IF who = "src" THEN Mk(t, <<>>, s) ELSE Mk(<<>>, t, s))
Count == IF Flaw = "floor" THEN IF Steps(sc) \div sc.step > 0 THEN Steps(sc) \div sc.step ELSE 1 ELSE Frames(sc)
At(k) == IF Flaw = "index" THEN Least(k, Steps(sc)) ELSE IF Flaw = "late" THEN Least(k * sc.step + 1, Steps(sc)) ELSE Shown(sc, k)
Next == i < Count /\ i' = i + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
\* begins at the beginning, goes forward by the step, comes within a step of the end, never beyond
Begins == i = 1 => At(i) = 1
Forward == [][At(i') = At(i) + sc.step]_vars
Reaches == i = Count => Steps(sc) - At(i) < sc.step
Within == At(i) \in 1..Steps(sc)
S1(q) == {q[k] : k \in 1..Len(q)}
TrailEnds == LET f == Frame(sc, i, 2) IN \A t \in f.trails : t[Len(t)] \in S1(f.src) \cup S1(f.mic)
Still == sc.st = <<>> => Frame(sc, i, 2).src = <<<<1, 1>>>>
===============================================================================
