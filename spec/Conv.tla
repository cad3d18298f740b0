-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Static and time-varying convolution of integer signals with integer      *)
(* responses.  Signals and responses are sparse: sequences of <<pos, val>>, *)
(* positions from 0.  A signal sample at position p filtered with a tap at   *)
(* k contributes val*tap at p + k: that is the whole meaning of "fully       *)
(* convolved and overlap-added at its own position".                         *)
(*                                                                          *)
(* mode "static"     : every sample uses response 1                          *)
(* mode "trajectory" : sample p uses the last step whose start is <= p       *)
(* mode "hop"        : sample p uses step p div hop, or nothing if there is  *)
(*                     no such response                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CeilDiv(a, b) == (a + b - 1) \div b

\* --- which step filters a sample -----------------------------------------
\* default starts: step t (from 0) begins at floor(t N / T)
DefaultStarts(N, T) == [t \in 1..T |-> ((t - 1) * N) \div T]
\* given start numerators over a denominator (timestamp * fs = num/den)
GivenStarts(num, den) == [t \in 1..Len(num) |-> num[t] \div den]

\* last step (1-based) whose start is at or before p
TrajStep(starts, p) == Max({t \in 1..Len(starts) : starts[t] <= p})
HopFrames(N, hop, T) == Min({CeilDiv(N, hop), T})
\* 0 = no response available
StepOf(c, p) ==
  CASE c.mode = "static"     -> 1
    [] c.mode = "trajectory" -> TrajStep(c.starts, p)
    [] c.mode = "hop"        -> IF p \div c.hop < HopFrames(c.N, c.hop, Len(c.h))
                                THEN p \div c.hop + 1 ELSE 0

OutLen(c) == IF c.mode = "hop" THEN HopFrames(c.N, c.hop, Len(c.h)) * c.hop + c.R - 1
             ELSE c.N + c.R - 1

\* --- contributions to microphone m ----------------------------------------
\* c.x[s] sparse signal, c.h[t][s][m] sparse response
Sample(c, s, m, q) ==
  LET st == StepOf(c, q[1]) IN
  IF st = 0 THEN <<>>
  ELSE [k \in 1..Len(c.h[st][s][m]) |->
          <<q[1] + c.h[st][s][m][k][1], q[2] * c.h[st][s][m][k][2]>>]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Contrib(c, m) ==
  Flat([s \in 1..Len(c.x) |-> Flat([k \in 1..Len(c.x[s]) |-> Sample(c, s, m, c.x[s][k])])])

\* --- shapes -----------------------------------------------------------------
\* Outcome of a call from the shapes alone: [ok, nsrc, nmic, T] or a rejection.
\* "either": one signal for several sources in the time-varying modes, which may
\* be used for every source or refused, but never for one source only.
Rej == [ok |-> "reject", nsrc |-> 0, nmic |-> 0, T |-> 0]
Match(sig, nsrc, nmic, T, broadcast) ==
  IF sig = nsrc THEN [ok |-> "ok", nsrc |-> nsrc, nmic |-> nmic, T |-> T]
  ELSE IF sig = 1 THEN [ok |-> broadcast, nsrc |-> nsrc, nmic |-> nmic, T |-> T]
  ELSE Rej
Outcome(mode, sd, rd) ==
  LET sig == IF Len(sd) = 1 THEN 1 ELSE sd[1]
      n == Len(rd) IN
  IF Len(sd) \notin {1, 2} THEN Rej
  ELSE IF mode = "static" THEN
    (CASE n = 1 -> Match(sig, 1, 1, 1, "ok")
       [] n = 2 -> Match(sig, 1, rd[1], 1, "ok")
       [] n = 3 -> Match(sig, rd[1], rd[2], 1, "ok")
       [] OTHER -> Rej)
  ELSE
    (CASE n = 2 -> Match(sig, 1, 1, rd[1], "either")
       [] n = 3 -> Match(sig, 1, rd[2], rd[1], "either")
       [] n = 4 -> Match(sig, rd[2], rd[3], rd[1], "either")
       [] OTHER -> Rej)
=============================================================================
