-------------------------------- MODULE Loader --------------------------------
(* C15.  A data loader hands the items of a dataset, in the order of a sampler,
   in batches of a size to workers that finish in any order; the batches come
   out in the order of the sampler whatever the workers do.                   *)
EXTENDS Collate
\* the k-th batch of an order
Chunk(order, size, k) == SubSeq(order, (k - 1) * size + 1, IF k * size < Len(order) THEN k * size ELSE Len(order))
Chunks(order, size, drop) ==
    LET n == IF drop THEN Len(order) \div size ELSE (Len(order) + size - 1) \div size
    IN  [k \in 1..n |-> Chunk(order, size, k)]
\* what the loader yields: each chunk's batch
Yields(items, order, size, drop, pad) ==
    LET C == Chunks(order, size, drop)
    IN  [k \in 1..Len(C) |-> Batch([i \in 1..Len(C[k]) |-> items[C[k][i]]], pad)]
===============================================================================
