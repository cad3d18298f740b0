------------------------------- MODULE MCConv -------------------------------
(***************************************************************************)
(* Exhaustive small scope: a segment-wise overlap-add machine (the way the   *)
(* library works: cut a segment, convolve it whole, add it at its start)      *)
(* against the sample-wise meaning in Conv.tla.                              *)
(***************************************************************************)
EXTENDS Conv, TLC
CONSTANTS MaxN, MaxT, MaxR, Vals
VARIABLES mode, N, T, R, hop, starts, x, h, t, out
vars == <<mode, N, T, R, hop, starts, x, h, t, out>>

Dense(v) == [k \in 1..Len(v) |-> <<k - 1, v[k]>>]
C == [mode |-> mode, N |-> N, R |-> R, hop |-> hop, starts |-> starts,
      x |-> <<Dense(x)>>, h |-> [k \in 1..T |-> <<<<Dense(h[k])>>>>]]

NonDec(s) == \A k \in 1..Len(s) - 1 : s[k] <= s[k + 1]
Init ==
  /\ mode \in {"static", "trajectory", "hop"}
  /\ N \in 1..MaxN /\ R \in 1..MaxR
  /\ T \in (IF mode = "static" THEN {1} ELSE 1..MaxT)
  /\ hop \in (IF mode = "hop" THEN 1..(MaxN + 1) ELSE {1})
  /\ starts \in (IF mode = "trajectory"
                 THEN {s \in [1..T -> 0..N] : s[1] = 0 /\ NonDec(s)} ELSE {<<0>>})
  /\ x \in [1..N -> Vals]
  /\ h \in [1..T -> [1..R -> Vals]]
  /\ t = 0
  /\ out = [p \in 0..(IF mode = "hop" THEN HopFrames(N, hop, T) * hop + R - 2 ELSE N + R - 2) |-> 0]

Frames == IF mode = "hop" THEN HopFrames(N, hop, T) ELSE T
SegLo(k) == CASE mode = "static" -> 0 [] mode = "hop" -> (k - 1) * hop [] OTHER -> starts[k]
SegHi(k) == CASE mode = "static" -> N
              [] mode = "hop" -> Min({k * hop, N})
              [] OTHER -> IF k = T THEN N ELSE starts[k + 1]
\* full linear convolution of the segment with its response, at the segment's start
ConvAt(k, p) == FoldLeft(LAMBDA a, q : a + (IF p - q \in 0..(R - 1) THEN x[q + 1] * h[k][p - q + 1] ELSE 0),
                         0, [j \in 1..(SegHi(k) - SegLo(k)) |-> SegLo(k) + j - 1])
Segment == /\ t < Frames
           /\ t' = t + 1
           /\ out' = [p \in DOMAIN out |-> out[p] + ConvAt(t + 1, p)]
           /\ UNCHANGED <<mode, N, T, R, hop, starts, x, h>>
Next == Segment
Spec == Init /\ [][Next]_vars

\* the same, several steps at a time: segments padded to the longest of their batch,
\* convolved over the whole padded length, and cut back to what each segment can reach
BatchOf(k, K) == LET b == ((k - 1) \div K) * K IN (b + 1)..Min({b + K, Frames})
Longest(k, K) == Max({SegHi(j) - SegLo(j) : j \in BatchOf(k, K)})
Padded(k, q) == IF q < SegHi(k) - SegLo(k) THEN x[SegLo(k) + q + 1] ELSE 0
PadConv(k, K, j) == FoldLeft(LAMBDA a, q : a + (IF j - (q - 1) \in 0..(R - 1) THEN Padded(k, q - 1) * h[k][j - (q - 1) + 1] ELSE 0),
                             0, [q \in 1..Longest(k, K) |-> q])
Batched(K, p) == FoldLeft(LAMBDA a, k : a + (LET n == SegHi(k) - SegLo(k) IN
                     IF n > 0 /\ p - SegLo(k) \in 0..(n + R - 2) THEN PadConv(k, K, p - SegLo(k)) ELSE 0),
                     0, [k \in 1..Frames |-> k])

Sum(seq, p) == FoldLeft(LAMBDA a, q : a + (IF q[1] = p THEN q[2] ELSE 0), 0, seq)
Done == t = Frames
\* the machine computes exactly the contributions of Conv.tla
SameAsSamplewise == Done => \A p \in DOMAIN out : out[p] = Sum(Contrib(C, 1), p)
BatchedIsSame == (t = Frames /\ mode = "trajectory") => \A K \in 1..3 : \A p \in DOMAIN out : out[p] = Batched(K, p)
\* nothing falls outside the stated output length
InRange == Done => \A k \in 1..Len(Contrib(C, 1)) : Contrib(C, 1)[k][1] \in 0..(OutLen(C) - 1)
LenAgrees == Cardinality(DOMAIN out) = OutLen(C)
\* trajectory: every sample lies in exactly one segment
CoverOnce == mode = "trajectory" =>
   \A p \in 0..(N - 1) : Cardinality({k \in 1..T : SegLo(k) <= p /\ p < SegHi(k)}) = 1
\* hop: in at most one; in none only beyond the last response
CoverHop == mode = "hop" => \A p \in 0..(N - 1) :
   Cardinality({k \in 1..Frames : SegLo(k) <= p /\ p < SegHi(k)}) = (IF p < T * hop THEN 1 ELSE 0)
\* equal responses give the static convolution (hop: when every frame has one)
EqualIsStatic == (Done /\ (\A k \in 1..T : h[k] = h[1]) /\ (mode = "hop" => T * hop >= N)) =>
   \A p \in DOMAIN out : out[p] = Sum(Contrib([C EXCEPT !.mode = "static"], 1), p)
DefaultInRange == \A n \in 1..MaxN, k \in 1..(MaxN + 2) :
   LET d == DefaultStarts(n, k) IN d[1] = 0 /\ NonDec(d) /\ d[k] < n
=============================================================================
