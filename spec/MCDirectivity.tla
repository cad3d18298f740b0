-------------------------- MODULE MCDirectivity --------------------------
(* Exhaustive small scope: every pattern, axis-parallel and diagonal vectors, *)
(* a device that turns one step at a time; gains judged exactly where |cos|    *)
(* is 0 or 1.  Also every orientation shape for up to MaxDev devices.          *)
EXTENDS Directivity
CONSTANTS MaxDev
VARIABLES p, v, o, side
vars == <<p, v, o, side>>
Dirs == {<<1,0>>, <<1,1>>, <<0,1>>, <<-1,1>>, <<-1,0>>, <<-1,-1>>, <<0,-1>>, <<1,-1>>}
Scales == {1, 3}
Canons == {Canon(q) : q \in DOMAIN Patterns \cup HalfOmni}
Times(k, w) == [i \in 1..Len(w) |-> k * w[i]]
Neg(w) == Times(-1, w)
Init == p \in Canons /\ v \in Dirs /\ o \in Dirs /\ side \in {"src", "mic"}
Turn90(w) == <<-w[2], w[1]>>
Next == /\ \/ o' = Turn90(o) \/ \E k \in Scales : o' = Times(k, o) /\ D2(o) <= 2
        /\ UNCHANGED <<p, v, side>>
Spec == Init /\ [][Next]_vars
G(w, q) == Exact(p, Seen(side, w), q)
\* length of the orientation does not matter
LengthFree == G(v, o) = G(v, Times(5, o))
\* distance does not matter to the gain
DistFree == G(v, o) = G(Times(7, v), o)
\* full gain on axis, pattern value at right angles, 2a-1 behind
OnAxis == G(v, IF side = "src" THEN v ELSE Neg(v)) = 4
Behind == G(v, IF side = "src" THEN Neg(v) ELSE v) = (IF p[1] = "half" THEN 0 ELSE 2 * p[2] - 4)
Side == G(v, Turn90(v)) = (IF p[1] = "half" THEN 0 ELSE p[2])
\* a source and a microphone at exchanged positions see the same gain
Exchange == Exact(p, Seen("src", v), o) = Exact(p, Seen("mic", Neg(v)), o)
\* omni ignores orientation; figure-8 is odd
OmniFlat == p = <<"first", 4>> => G(v, o) \in {4, 99} /\ (G(v, o) = 4 \/ Abs(Cos2(v, o)[1]) # Cos2(v, o)[2])
Odd == (p = <<"first", 0>> /\ G(v, o) # 99) => G(v, o) = -G(v, Neg(o))
HalfSplit == (p[1] = "half" /\ Dot(v, o) # 0) => G(v, o) + G(v, Neg(o)) = 4
\* shape resolution: accepted shapes name one row per device
Shapes == {<<>>} \cup {<<a>> : a \in 1..5} \cup {<<a, b>> : a \in 1..4, b \in 1..4} \cup {<<1, 1, 2>>, <<1, 1, 3>>}
ShapesOk == \A dim \in {2, 3}, n \in 1..MaxDev, sh \in Shapes :
   LET r == Resolve(dim, n, sh) IN
   r.ok # "reject" => /\ Len(r.rows) = n
                      /\ \A d \in 1..n : r.rows[d].row \in {0, d}
                      /\ (\E d \in 1..n : r.rows[d].row = d) => sh[1] = n
=============================================================================
