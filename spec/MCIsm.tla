------------------------------- MODULE MCIsm -------------------------------
(* Small-scope exhaustive model: every 2-D integer room up to MaxL, every    *)
(* source and microphone on the grid, every outward mirror walk up to MaxK.  *)
EXTENDS Ism
CONSTANTS MaxL, MaxK
VARIABLES Ls, src, mic, im     \* im: per-axis image records
vars == <<Ls, src, mic, im>>

Init == /\ Ls \in [1..2 -> 1..MaxL]
        /\ src \in [1..2 -> 0..MaxL]
        /\ mic \in [1..2 -> 0..MaxL]
        /\ \A i \in 1..2 : src[i] <= Ls[i] /\ mic[i] <= Ls[i]
        /\ im = [i \in 1..2 |-> Origin(src[i])]

\* a step must go outward on its axis
Outward(n, d) == n = 0 \/ (n > 0 /\ d = 1) \/ (n < 0 /\ d = -1)

Step(i, d) == /\ Abs(im[1].n) + Abs(im[2].n) < MaxK
              /\ Outward(im[i].n, d)
              /\ im' = [im EXCEPT ![i] = Mirror(Ls[i], @, d)]
              /\ UNCHANGED <<Ls, src, mic>>
Next == \E i \in 1..2, d \in {-1, 1} : Step(i, d)
Spec == Init /\ [][Next]_vars

N == <<im[1].n, im[2].n>>
\* the image lies in its cell of the unfolded lattice
InCell == \A i \in 1..2 : im[i].n * Ls[i] <= im[i].x /\ im[i].x <= (im[i].n + 1) * Ls[i]
ClosedForm == \A i \in 1..2 :
   /\ im[i].x = ClosedX(Ls[i], src[i], im[i].n)
   /\ im[i].hi = ClosedHi(im[i].n)
   /\ im[i].lo = ClosedLo(im[i].n)
\* reflection order = total wall hits = L1 norm of the index
OrderIsHits == SumSeq([i \in 1..2 |-> im[i].lo + im[i].hi]) = L1(N)
\* walks to the same cell commute (image depends on the cell only)
PathIndependent == \A i \in 1..2 : im[i] = AxisImage(Ls[i], src[i], im[i].n)
\* reciprocity: swapping source and microphone gives an image (cell n or -n per
\* axis) at the same distance with the same wall hits
Recip == \A i \in 1..2 :
   LET n == im[i].n
       m == IF n % 2 = 0 THEN -n ELSE n
       back == AxisImage(Ls[i], mic[i], m)
   IN /\ Abs(mic[i] - im[i].x) = Abs(src[i] - back.x)
      /\ back.lo = im[i].lo /\ back.hi = im[i].hi
\* the direct path is the unique shortest arrival (ties only through walls)
DirectFirst == D2(<<mic[1]-im[1].x, mic[2]-im[2].x>>) >= D2(<<mic[1]-src[1], mic[2]-src[2]>>)
IndexInSet == N \in OrderSet(2, MaxK)
=============================================================================
