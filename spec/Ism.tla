-------------------------------- MODULE Ism --------------------------------
(***************************************************************************)
(* The image-source method in a shoebox room, on an integer grid.          *)
(*                                                                         *)
(* One axis of length L is unfolded by mirroring: the image in cell n+1 is *)
(* the mirror, in the wall plane between the cells, of the image in cell   *)
(* n.  The wall planes of the unfolded axis lie at k*L; plane k is the     *)
(* image of the physical wall at L ("hi") when k is odd and of the wall at *)
(* 0 ("lo") when k is even.  Every crossing costs one reflection at that   *)
(* wall.  Images, wall-hit counts and displacements below are all obtained *)
(* by taking mirror steps; the closed forms are only invariants.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Abs(a) == IF a < 0 THEN -a ELSE a

\* plane crossed when leaving cell n outward in direction d (+1 / -1)
Plane(n, d) == IF d = 1 THEN n + 1 ELSE n

\* one mirror step on an axis image [n, x, lo, hi]
Mirror(L, im, d) ==
  LET k == Plane(im.n, d) IN
  [n  |-> im.n + d,
   x  |-> 2 * k * L - im.x,
   lo |-> im.lo + (IF k % 2 = 0 THEN 1 ELSE 0),
   hi |-> im.hi + (IF k % 2 = 1 THEN 1 ELSE 0)]

Origin(s) == [n |-> 0, x |-> s, lo |-> 0, hi |-> 0]

\* image of s in cell n, by |n| outward mirror steps
RECURSIVE AxisImage(_, _, _)
AxisImage(L, s, n) ==
  IF n = 0 THEN Origin(s)
  ELSE LET d == IF n > 0 THEN 1 ELSE -1
       IN Mirror(L, AxisImage(L, s, n - d), d)

\* index vectors retained for a maximum reflection order / for a box
RECURSIVE L1(_)
L1(v) == IF v = <<>> THEN 0 ELSE Abs(Head(v)) + L1(Tail(v))

\* enumerated axis by axis with the remaining order budget (never builds the box)
RECURSIVE OrderSet(_, _)
OrderSet(dim, K) ==
  IF dim = 0 THEN {<<>>}
  ELSE UNION {{<<a>> \o t : t \in OrderSet(dim - 1, K - Abs(a))} : a \in -K..K}

RECURSIVE BoxSet(_)
BoxSet(nb) ==
  IF nb = <<>> THEN {<<>>}
  ELSE UNION {{<<a>> \o t : t \in BoxSet(Tail(nb))} : a \in -Head(nb)..Head(nb)}

IndexSet(dim, K, nb) == IF nb = <<>> THEN OrderSet(dim, K) ELSE BoxSet(nb)

\* full image of a position vector
ImageOf(Ls, s, n) == [i \in 1..Len(Ls) |-> AxisImage(Ls[i], s[i], n[i])]

Disp(Ls, s, r, n) == LET im == ImageOf(Ls, s, n) IN [i \in 1..Len(Ls) |-> r[i] - im[i].x]

RECURSIVE SumSeq(_)
SumSeq(v) == IF v = <<>> THEN 0 ELSE Head(v) + SumSeq(Tail(v))
D2(v) == SumSeq([i \in 1..Len(v) |-> v[i] * v[i]])
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])

\* closed forms (checked as invariants, never used to produce expectations)
ClosedX(L, s, n)  == 2 * L * ((n + 1) \div 2) + (IF n % 2 = 0 THEN s ELSE -s)
ClosedHi(n) == IF n >= 0 THEN (n + 1) \div 2 ELSE Abs(n) \div 2
ClosedLo(n) == IF n >= 0 THEN n \div 2 ELSE (Abs(n) + 1) \div 2
=============================================================================
