------------------------------ MODULE Metadata ------------------------------
(* What the description of a scene says.  Positions are integer vectors (a     *)
(* grid of 1 cm, say); a trajectory is a sequence of frames, a frame a         *)
(* sequence of positions; <<>> stands for "no trajectory given".               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Sq(v) == SumTo([i \in 1..Len(v) |-> v[i] * v[i]], Len(v))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* a trajectory given for n devices in dim dimensions
WellFormed(traj, n, dim) == \A t \in 1..Len(traj) : Len(traj[t]) = n /\ \A i \in 1..n : Len(traj[t][i]) = dim
StepsOf(traj) == IF traj = <<>> THEN 1 ELSE Len(traj)
Accepts(s) ==
  /\ WellFormed(s.srcTraj, Len(s.src), s.dim)
  /\ WellFormed(s.micTraj, Len(s.mic), s.dim)
  /\ LET a == StepsOf(s.srcTraj) b == StepsOf(s.micTraj) IN a = b \/ a = 1 \/ b = 1

Steps(s) == LET a == StepsOf(s.srcTraj) b == StepsOf(s.micTraj) IN IF a > b THEN a ELSE b
\* the device's frame at step t: standing still unless it was given a longer trajectory
Frame(pos, traj, t) == IF traj = <<>> THEN pos ELSE IF Len(traj) = 1 THEN traj[1] ELSE traj[t]
Frames(pos, traj, T) == [t \in 1..T |-> Frame(pos, traj, t)]
Dynamic(s) == Steps(s) > 1

\* direction of source i seen from microphone j at step t (its angles follow from the vector)
Seen(s, t, i, j) == Sub(Frame(s.src, s.srcTraj, t)[i], Frame(s.mic, s.micTraj, t)[j])
Doa(s) == [t \in 1..Steps(s) |-> [i \in 1..Len(s.src) |-> [j \in 1..Len(s.mic) |-> Seen(s, t, i, j)]]]

\* centre: sum of the positions (over their number); spacing: least squared distance, 0 for a single one
CentreSum(P) == [k \in 1..Len(P[1]) |-> SumTo([i \in 1..Len(P) |-> P[i][k]], Len(P))]
SpacingSq(P) == IF Len(P) < 2 THEN 0 ELSE Min({Sq(Sub(P[i], P[j])) : <<i, j>> \in {p \in (1..Len(P)) \X (1..Len(P)) : p[1] < p[2]}})
Geometry(n) == IF n = 1 THEN "single" ELSE IF n = 2 THEN "binaural" ELSE "custom"

\* times of the steps: "given", none, or evenly spaced over the signal, as numerators over
\* (T-1) samples: step t is at num[t] / (T-1) / fs
Times(s) == IF s.given THEN [kind |-> "given", num |-> <<>>]
            ELSE IF Dynamic(s) /\ s.len >= 0
                 THEN [kind |-> "even", num |-> [t \in 1..Steps(s) |-> (t - 1) * (IF s.len > 0 THEN s.len - 1 ELSE 0)]]
                 ELSE [kind |-> "none", num |-> <<>>]

Describe(s) ==
  IF ~Accepts(s) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, steps |-> Steps(s), dynamic |-> Dynamic(s),
        src |-> IF Dynamic(s) THEN Frames(s.src, s.srcTraj, Steps(s)) ELSE <<>>,
        mic |-> IF Dynamic(s) THEN Frames(s.mic, s.micTraj, Steps(s)) ELSE <<>>,
        doa |-> Doa(s), centre |-> CentreSum(s.mic), spacing |-> SpacingSq(s.mic),
        geometry |-> Geometry(Len(s.mic)), times |-> Times(s)]
=============================================================================
