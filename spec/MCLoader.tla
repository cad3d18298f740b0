------------------------------- MODULE MCLoader -------------------------------
(* Workers take batches off a queue, finish in any order, and the loader waits
   for the batch whose turn it is (Policy "turn") or takes whatever is ready
   ("ready", which must be refuted).                                          *)
EXTENDS Loader, TLC, Json, FiniteSets
CONSTANTS MaxItems, MaxSize, Workers, Policy
Items == [i \in 1..MaxItems |-> [len |-> i % 3, rate |-> 8, id |-> i, text |-> i % 2, spk |-> i % 3, base |-> 10 * i, meta |-> 0]]
Orders == {o \in UNION {[1..n -> 1..MaxItems] : n \in 0..MaxItems} : Cardinality({o[i] : i \in DOMAIN o}) = Len(o)}
VARIABLES order, size, drop, sent, busy, ready, out
vars == <<order, size, drop, sent, busy, ready, out>>
C == Chunks(order, size, drop)
Init == /\ order \in Orders /\ size \in 1..MaxSize /\ drop \in BOOLEAN
        /\ sent = 0 /\ busy = [w \in 1..Workers |-> 0] /\ ready = {} /\ out = <<>>
Take(w) == busy[w] = 0 /\ sent < Len(C) /\ sent' = sent + 1 /\ busy' = [busy EXCEPT ![w] = sent']
           /\ UNCHANGED <<order, size, drop, ready, out>>
Finish(w) == busy[w] # 0 /\ ready' = ready \cup {busy[w]} /\ busy' = [busy EXCEPT ![w] = 0]
           /\ UNCHANGED <<order, size, drop, sent, out>>
Give == \E k \in ready : /\ Policy = "turn" => k = Len(out) + 1
                         /\ out' = Append(out, Batch([i \in 1..Len(C[k]) |-> Items[C[k][i]]], 0))
                         /\ ready' = ready \ {k} /\ UNCHANGED <<order, size, drop, sent, busy>>
Next == Give \/ \E w \in 1..Workers : Take(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars
Over == Len(out) = Len(C)
InTurn == \A k \in 1..Len(out) : out[k] = Yields(Items, order, size, drop, 0)[k]
\* every item of the order is seen once, in order, unless a short last batch is dropped
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Partition == Over => LET f == Flat([k \in 1..Len(out) |-> out[k].ids]) IN
    IF drop THEN Len(f) = (Len(order) \div size) * size /\ f = SubSeq(order, 1, Len(f)) ELSE f = order
Emit == (Over /\ ready = {}) => PrintT("@@" \o ToJson([order |-> order, size |-> size, drop |-> drop]))
===============================================================================
