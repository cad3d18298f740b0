------------------------------- MODULE Places -------------------------------
(* C23.  What sampled, clamped and interpolated positions must satisfy, in
   units of half a millimetre (integers).                                     *)
EXTENDS Integers, Sequences
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Low(r, i) == r.margin
High(r, i) == r.size[i] - r.margin
MarginFits(r) == \A i \in 1..Len(r.size) : Low(r, i) <= High(r, i)
\* the height range that applies to axis 3, or the whole of it
ZLow(r) == MaxOf(r.margin, r.z[1])
ZHigh(r) == MinOf(r.size[3] - r.margin, r.z[2])
HasZ(r) == Len(r.size) = 3 /\ r.z # <<>>
ZFits(r) == HasZ(r) /\ ZLow(r) <= ZHigh(r)
Lo(r, i) == IF i = 3 /\ ZFits(r) THEN ZLow(r) ELSE Low(r, i)
Hi(r, i) == IF i = 3 /\ ZFits(r) THEN ZHigh(r) ELSE High(r, i)
\* the farthest and nearest a permitted position can be from the centre
RECURSIVE FarAcc(_, _)
FarAcc(r, i) == IF i = 0 THEN 0
                ELSE FarAcc(r, i - 1) + Sq(MaxOf(Abs(Lo(r, i) - r.centre[i]), Abs(Hi(r, i) - r.centre[i])))
Far2(r) == FarAcc(r, Len(r.size))
Gap(r, i) == IF r.centre[i] < Lo(r, i) THEN Lo(r, i) - r.centre[i]
             ELSE IF r.centre[i] > Hi(r, i) THEN r.centre[i] - Hi(r, i) ELSE 0
RECURSIVE NearAcc(_, _)
NearAcc(r, i) == IF i = 0 THEN 0 ELSE NearAcc(r, i - 1) + Sq(Gap(r, i))
Near2(r) == NearAcc(r, Len(r.size))
HasDist(r) == r.centre # <<>>
\* "must": every draw is permitted; "cannot": none is; else sampling may give up
Demand(r) == IF ~MarginFits(r) THEN "cannot"
             ELSE IF ~HasDist(r) \/ r.dist <= 0 THEN "must"
             ELSE IF Far2(r) < Sq(r.dist - 2) THEN "cannot"
             ELSE IF Near2(r) >= Sq(r.dist + 2) THEN "must" ELSE "may"
Dist2(p, q) == IF Len(p) = 2 THEN Sq(p[1] - q[1]) + Sq(p[2] - q[2])
               ELSE Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
PointOk(r, p) == /\ Len(p) = Len(r.size)
                 /\ \A i \in 1..Len(p) : p[i] >= Lo(r, i) - 1 /\ p[i] <= Hi(r, i) + 1
                 /\ (HasDist(r) /\ r.dist > 0) => Dist2(p, r.centre) >= Sq(MaxOf(r.dist - 2, 0))
\* many draws come near both ends of every permitted interval
Reaches(r, ps) == \A i \in 1..Len(r.size) :
    LET w == (Hi(r, i) - Lo(r, i)) \div 10 + 2
    IN  /\ \E k \in 1..Len(ps) : ps[k][i] <= Lo(r, i) + w
        /\ \E k \in 1..Len(ps) : ps[k][i] >= Hi(r, i) - w
SampleOk(r, ps) == Len(ps) = r.num /\ \A k \in 1..Len(ps) : PointOk(r, ps[k])

\* clamping one coordinate
Clamp(x, size, margin) == MaxOf(MinOf(x, size - margin), margin)
\* the k-th of n points from a to b, times n - 1
Line(a, b, n, k) == IF n = 1 THEN a ELSE a * (n - 1) + (b - a) * (k - 1)
=============================================================================
