------------------------------ MODULE StoreTrace ------------------------------
(* Judges recorded stores on disks with and without room. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
S == INSTANCE Store WITH MaxTotal <- 0, Flaw <- "", total <- 0, cap <- 0, asked <- 0, held <- 0, end <- ""
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("@@" \o ToJson([id |-> Cases[i'].id, fine |-> S!Fine(Cases[i'])]))
Spec == Init /\ [][Next]_i
===============================================================================
