------------------------------ MODULE MCArrays ------------------------------
(* Every request of a small product, its verdict and its layout. *)
EXTENDS Arrays, TLC, Json
CONSTANTS MaxN, EmitOn
VARIABLES c
None == [make |-> "none"]
Lin == [make : {"linear"}, dim : {2, 3}, n : -1..MaxN, size : -1..1, axis : -1..3, dirdim : {0, 2, 3}]
Cir == [make : {"circular"}, dim : {1, 2, 3, 4}, n : -1..MaxN, size : -1..1, plane : {"xy", "xz", "yz", "zy", ""}, normdim : {0, 2, 3}]
Sph == [make : {"sphere"}, dim : {2, 3, 4}, size : -1..1, kind : Solids \cup {"em32", "em64", "prism"}]
Bin == [make : {"binaural"}, dim : {2, 3}]
Init == c = None
Next == c = None /\ c' \in Lin \cup Cir \cup Sph \cup Bin
Spec == Init /\ [][Next]_c
Ok == CASE c.make = "linear" -> LinearOk(c.dim, c.n, c.size, c.axis, c.dirdim)
        [] c.make = "circular" -> CircularOk(c.dim, c.n, c.size, c.plane, c.normdim)
        [] c.make = "sphere" -> SphereOk(c.dim, c.size, c.kind)
        [] OTHER -> TRUE
\* golden-ratio pairs, halves of spacings, or angle pairs
Layout == CASE c.make = "linear" -> [i \in 1..c.n |-> Linear(c.n, i)]
            [] c.make = "sphere" /\ c.kind \in Solids -> Vertices(c.kind)
            [] c.make = "sphere" /\ c.kind = "em32" -> EM32
            [] c.make = "sphere" /\ c.kind = "em64" -> EM64
            [] OTHER -> <<>>
Laws == /\ \A k \in Solids : Regular(k)
        /\ \A n \in 1..MaxN : LinearLaws(n)
        /\ EM32Antipodal /\ Len(EM32) = 32 /\ Len(EM64) = 64
        /\ Bands(EM32, 0, 900000) + Bands(EM32, 900000, 900001) + Bands(EM32, 900001, 1800001) = 32
        /\ \A i, j \in 1..64 : i # j => EM64[i] # EM64[j]
LawsHold == c = None => Laws
Emit == c # None => PrintT("@@" \o ToJson([c |-> c, ok |-> Ok, layout |-> IF Ok THEN Layout ELSE <<>>]))
=============================================================================
