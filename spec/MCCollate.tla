------------------------------- MODULE MCCollate ------------------------------
(* Every small batch grows item by item: a batch of more items keeps the rows
   of the fewer, extended by padding only; each is emitted for replay.         *)
EXTENDS Collate, TLC, Json
CONSTANTS MaxItems, MaxLen, Rates
VARIABLES items
Init == items = <<>>
Next == /\ Len(items) < MaxItems
        /\ \E n \in 0..MaxLen : \E r \in Rates :
             items' = Append(items, [len |-> n, rate |-> r, id |-> Len(items) + 1, text |-> Len(items) % 2,
                                     spk |-> (Len(items) + n) % 3, base |-> 10 * (Len(items) + 1), meta |-> n])
Spec == Init /\ [][Next]_items
Prefix == LET B == Batch(items, -1) IN B.ok =>
    /\ \A i \in 1..Len(items) : \A j \in 1..items[i].len : B.audio[i][j] = items[i].base + j
    /\ \A i \in 1..Len(items) : \A j \in items[i].len + 1..Longest(items) : B.audio[i][j] = -1
    /\ \A i \in 1..Len(items) : Len(B.audio[i]) = Longest(items)
    /\ Len(items) > 1 => LET C == Batch(SubSeq(items, 1, Len(items) - 1), -1) IN
         C.ok /\ \A i \in 1..Len(items) - 1 : SubSeq(B.audio[i], 1, Len(C.audio[1])) = C.audio[i]
Emit == PrintT("@@" \o ToJson([items |-> items, batch |-> Batch(items, -7)]))
===============================================================================
