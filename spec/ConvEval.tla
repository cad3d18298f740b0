------------------------------ MODULE ConvEval ------------------------------
(* Oracle: per case the contributions to every microphone and the length; for *)
(* shape cases the outcome; for segmentation traces, whether the observed step *)
(* of every sample is one the specification allows.                           *)
EXTENDS Conv, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i

\* Trace: observed starts of each step (as first sample of the step or of the
\* next non-empty one); exact = float rounding cannot move a start
StartsOk(c, obs) ==
  LET want == IF c.num = <<>> THEN DefaultStarts(c.N, c.T) ELSE GivenStarts(c.num, c.den)
      exactAt(t) == IF c.num = <<>> THEN (c.exact \/ ((t - 1) * c.N) % c.T # 0)
                    ELSE (c.exact \/ c.num[t] % c.den # 0)
      eff(w, t) == w[t]
  IN \A t \in 1..Len(want) :
       obs[t] = eff(want, t) \/ (~exactAt(t) /\ obs[t] = eff(want, t) - 1)

Emit(c) ==
  CASE c.kind = "conv" ->
         [id |-> c.id, len |-> OutLen(c), y |-> [m \in 1..Len(c.h[1][1]) |-> Contrib(c, m)],
          starts |-> c.starts]
    [] c.kind = "autoconv" ->     \* default segmentation
         LET d == [c EXCEPT !.starts = DefaultStarts(c.N, Len(c.h))] IN
         [id |-> c.id, len |-> OutLen(d), y |-> [m \in 1..Len(d.h[1][1]) |-> Contrib(d, m)],
          starts |-> d.starts]
    [] c.kind = "shape" -> [id |-> c.id, o |-> Outcome(c.mode, c.sd, c.rd)]
    [] c.kind = "trace" -> [id |-> c.id, ok |-> StartsOk(c, c.obs),
                            want |-> IF c.num = <<>> THEN DefaultStarts(c.N, c.T) ELSE GivenStarts(c.num, c.den)]
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ PrintT("@@" \o ToJson(Emit(Cases[i + 1])))
Spec == Init /\ [][Next]_i
=============================================================================
