--------------------------------- MODULE Audio ---------------------------------
(* C18.  Audio files.  A tensor is its shape and its non-zero entries
   [i, j, v] (j = 1 for one dimension); what a file holds is channels of frames.
   Values are integers over a common denominator; a file's sample is the entry
   times a factor.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Few                       \* rows up to this many are always channels
Abs(v) == IF v < 0 THEN -v ELSE v
MaxAbs(x) == LET S == {Abs(e[3]) : e \in {x.nz[k] : k \in 1..Len(x.nz)}} \cup {0} IN CHOOSE m \in S : \A n \in S : n <= m
\* --- layout
ByRows(x) == Len(x.shape) = 2 /\ (x.shape[1] <= Few \/ x.shape[1] < x.shape[2])
Chans(x) == IF Len(x.shape) = 1 THEN 1 ELSE IF ByRows(x) THEN x.shape[1] ELSE x.shape[2]
Frames(x) == IF Len(x.shape) = 1 THEN x.shape[1] ELSE IF ByRows(x) THEN x.shape[2] ELSE x.shape[1]
\* the file's entries: [channel, frame, value]
Placed(x) == [k \in 1..Len(x.nz) |-> IF Len(x.shape) = 1 THEN <<1, x.nz[k][1], x.nz[k][3]>>
                                   ELSE IF ByRows(x) THEN x.nz[k] ELSE <<x.nz[k][2], x.nz[k][1], x.nz[k][3]>>]
\* --- scaling: file sample = v * num / den, the tensor's unit being 1/unit
Factor(x, norm, peak) == LET m == MaxAbs(x) IN
    IF norm /\ m > 0 THEN [num |-> peak[1], den |-> m * peak[2]] ELSE [num |-> 1, den |-> x.unit]
Refused(norm, peak) == norm /\ peak[1] <= 0
\* --- names
Wavs == {"wav", "wave"}
File(x, norm, peak) == [chans |-> Chans(x), frames |-> Frames(x), data |-> Placed(x), factor |-> Factor(x, norm, peak)]
First(f) == SelectSeq(f.data, LAMBDA e : e[1] = 1)
===============================================================================
