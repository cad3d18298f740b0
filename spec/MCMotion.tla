------------------------------- MODULE MCMotion -------------------------------
(* A source on a circle of lattice points about the centre, in a room with a
   margin.  It may be planned by "uniform" (the circle fits the allowed area
   whole) or, a flaw, "ends" (only start and end are looked at).  Time runs from
   0 to Last; it moves one place per step within the window.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Plan, Last, From, To, Sizes, Norms
VARIABLES room, centre, ring, at, dir, t, way
vars == <<room, centre, ring, at, dir, t, way>>
\* lattice points of a norm, in order around the circle
Pts(n) == {p \in (-5..5) \X (-5..5) : p[1] * p[1] + p[2] * p[2] = n}
Half(p) == IF p[2] > 0 \/ (p[2] = 0 /\ p[1] > 0) THEN 0 ELSE 1
Less(p, q) == Half(p) < Half(q) \/ (Half(p) = Half(q) /\ p[1] * q[2] - p[2] * q[1] > 0)
Ring(n) == LET S == Pts(n) IN [k \in 1..Cardinality(S) |-> CHOOSE p \in S : Cardinality({q \in S : Less(q, p)}) = k - 1]
Wrap(k, n) == ((k - 1) % n) + 1
In(p) == /\ centre[1] + p[1] >= 1 /\ centre[1] + p[1] <= room[1] - 1 /\ centre[2] + p[2] >= 1 /\ centre[2] + p[2] <= room[2] - 1
Len_ == To - From
Init == /\ room \in Sizes \X Sizes /\ centre \in (1..7) \X (1..7) /\ \E n \in Norms : ring = Ring(n)
        /\ at \in 1..Len(ring) /\ dir \in {-1, 1} /\ t = 0 /\ way = 0
        /\ centre[1] < room[1] /\ centre[2] < room[2]
        /\ IF Plan = "uniform" THEN \A k \in 1..Len(ring) : In(<<ring[k][1], ring[k][2]>>)
           ELSE In(ring[at]) /\ In(ring[Wrap(at + dir * Len_, Len(ring))])
Tick == /\ t < Last /\ t' = t + 1 /\ UNCHANGED <<room, centre, ring, dir>>
        /\ IF t >= From /\ t < To THEN at' = Wrap(at + dir, Len(ring)) /\ way' = way + 1 ELSE UNCHANGED <<at, way>>
Next == Tick
Spec == Init /\ [][Next]_vars
Inside == In(ring[at])
Gone == t = Last => way = Len_
Resting == (t < From => way = 0) /\ (t > To => way = Len_)
Distance == ring[at][1] * ring[at][1] + ring[at][2] * ring[at][2] = ring[1][1] * ring[1][1] + ring[1][2] * ring[1][2]
===============================================================================
