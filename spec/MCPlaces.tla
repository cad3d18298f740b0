------------------------------ MODULE MCPlaces ------------------------------
(* The rejection loop, laws of feasibility and clamping on small grids. *)
EXTENDS Places, TLC
CONSTANTS S, MaxTry
VARIABLES r, kept, tries, out
vars == <<r, kept, tries, out>>
Reqs == [size : {<<a, b>> : a \in 2..S, b \in {S}}, margin : 0..2, z : {<<>>}, centre : {<<a, b>> : a \in 0..S, b \in {1}},
         dist : 0..S, num : {1, 2}]
Init == r \in Reqs /\ kept = <<>> /\ tries = 0 /\ out = "run"
Draws == {<<a, b>> : a \in Lo(r, 1)..Hi(r, 1), b \in Lo(r, 2)..Hi(r, 2)}
Refuse == out = "run" /\ ~MarginFits(r) /\ out' = "error" /\ UNCHANGED <<r, kept, tries>>
Draw == /\ out = "run" /\ MarginFits(r) /\ Len(kept) < r.num /\ tries < MaxTry
        /\ tries' = tries + 1
        /\ \E p \in Draws : kept' = IF Dist2(p, r.centre) >= Sq(r.dist) THEN Append(kept, p) ELSE kept
        /\ UNCHANGED <<r, out>>
Give == /\ out = "run" /\ MarginFits(r) /\ (Len(kept) = r.num \/ tries = MaxTry)
        /\ out' = (IF Len(kept) = r.num THEN "ok" ELSE "error") /\ UNCHANGED <<r, kept, tries>>
Next == Refuse \/ Draw \/ Give
Spec == Init /\ [][Next]_vars
Sound == out = "ok" => SampleOk(r, kept)
Infeasible == Demand(r) = "cannot" => out # "ok"
Sure == Demand(r) = "must" /\ out # "run" => out = "ok"
ClampLaws == \A x \in -2..(S + 2) : \A m \in 0..1 :
    LET y == Clamp(x, S, m) IN /\ y >= m /\ y <= S - m
                               /\ (x >= m /\ x <= S - m => y = x)
                               /\ \A w \in m..(S - m) : Abs(w - x) >= Abs(y - x)
=============================================================================
