-------------------------------- MODULE Collate -------------------------------
(* C15.  A batch of items [len, rate, id, text, spk, base, meta]; sample j of an
   item is base + j.                                                          *)
EXTENDS Integers, Sequences
Longest(items) == CHOOSE n \in {items[i].len : i \in 1..Len(items)} : \A i \in 1..Len(items) : items[i].len <= n
Row(item, n, pad) == [j \in 1..n |-> IF j <= item.len THEN item.base + j ELSE pad]
Refused(items) == items = <<>> \/ \E i, j \in 1..Len(items) : items[i].rate # items[j].rate
Batch(items, pad) ==
    IF Refused(items) THEN [ok |-> FALSE]
    ELSE LET n == Longest(items) IN
         [ok |-> TRUE, audio |-> [i \in 1..Len(items) |-> Row(items[i], n, pad)], rate |-> items[1].rate,
          lengths |-> [i \in 1..Len(items) |-> items[i].len], ids |-> [i \in 1..Len(items) |-> items[i].id],
          texts |-> [i \in 1..Len(items) |-> items[i].text], spks |-> [i \in 1..Len(items) |-> items[i].spk],
          metas |-> [i \in 1..Len(items) |-> items[i].meta]]
===============================================================================
