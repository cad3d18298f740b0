------------------------------- MODULE IsmEval ------------------------------
(* Oracle direction: reads cases (rooms, positions, order/box) and emits, per *)
(* case, the images with wall hits and, per (source, mic), the displacements. *)
EXTENDS Ism, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Emit(c) ==
  LET ns == SetToSeq(IndexSet(Len(c.L), c.order, c.nb))
      ref == [k \in 1..Len(ns) |-> ImageOf(c.L, c.src[1], ns[k])]
  IN [id |-> c.id,
      n  |-> ns,
      lo |-> [k \in 1..Len(ns) |-> [a \in 1..Len(c.L) |-> ref[k][a].lo]],
      hi |-> [k \in 1..Len(ns) |-> [a \in 1..Len(c.L) |-> ref[k][a].hi]],
      x  |-> [s \in 1..Len(c.src) |-> [k \in 1..Len(ns) |->
                 [a \in 1..Len(c.L) |-> AxisImage(c.L[a], c.src[s][a], ns[k][a]).x]]]]
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ PrintT("@@" \o ToJson(Emit(Cases[i + 1])))
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter >= 0
=============================================================================
