-------------------------------- MODULE Post --------------------------------
(***************************************************************************)
(* Post-processing of a static response: image part, optional diffuse tail,  *)
(* optional high-pass.  Time is in ticks; fs samples per den ticks.           *)
(* Every sample records where it came from.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* onset sample of a tail starting at tdiff/den seconds
Onset(fs, tdiff, den) == (fs * tdiff) \div den
\* samples from the duration (rounded up), or as given
Count(fs, tmax, den, ns) == IF ns > 0 THEN ns ELSE (fs * tmax + den - 1) \div den
\* tdiff < 0 stands for "no tail requested"
HasTail(fs, tmax, tdiff, den, ns) ==
  LET n == Count(fs, tmax, den, ns) IN
  tdiff >= 0 /\ (tmax <= 0 \/ tdiff < tmax) /\ Onset(fs, tdiff, den) < n /\ Onset(fs, tdiff, den) > 0
HpfOk(fs, fc2) == fc2 > 0 /\ fc2 < fs          \* fc2 = twice the cutoff
=============================================================================
