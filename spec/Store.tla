-------------------------------- MODULE Store ---------------------------------
(* C18, C19.  Storing a file on a disk with room for cap units: whatever pieces
   it is written in, a store that returns has stored everything, and one that
   could not raises.  Flaws: "ignore" goes on after a refused piece, "count"
   does not look at how much of a piece was taken.                            *)
EXTENDS Naturals
CONSTANTS MaxTotal, Flaw
VARIABLES total, cap, asked, held, end
vars == <<total, cap, asked, held, end>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ total \in 0..MaxTotal /\ cap \in 0..MaxTotal
        /\ asked = 0 /\ held = 0 /\ end = "none"
\* the disk takes what it can of a piece
Piece(n) == /\ end = "none" /\ asked + n <= total
            /\ asked' = asked + n
            /\ held' = Min(held + n, cap)
            /\ end' = CASE Flaw = "ignore" -> end
                        [] Flaw = "count" -> IF held = cap THEN "err" ELSE end
                        [] OTHER -> IF held + n > cap THEN "err" ELSE end
            /\ UNCHANGED <<total, cap>>
Finish == /\ end = "none" /\ asked = total
          /\ end' = "ok"
          /\ UNCHANGED <<total, cap, asked, held>>
Next == (\E n \in 1..MaxTotal : Piece(n)) \/ Finish
Spec == Init /\ [][Next]_vars
Honest == end = "ok" => held = total
Able == cap >= total => end # "err"
\* --- judging recorded stores: [id, out, whole, roomy]
Fine(r) == IF r.out = "ok" THEN r.whole ELSE ~r.roomy
===============================================================================
