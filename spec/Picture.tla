------------------------------- MODULE Picture --------------------------------
(* C27.  What a picture and what each frame of an animation shows.  Points are
   integer grid points (sequences of 2 or 3 coordinates).  A scene sc has
     room            the extent, a point
     src, mic        positions by device
     st, mt          trajectories: step -> device -> point, <<>> when not given
     step, view      every step-th point is shown; dimensions of the view
   A device without a trajectory stands still at its position.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Proj(p, d) == SubSeq(p, 1, d)
Steps(sc) == IF sc.st # <<>> THEN Len(sc.st) ELSE Len(sc.mt)
Moves(sc) == sc.st # <<>> \/ sc.mt # <<>>
Traj(t, pos, n) == IF t # <<>> THEN t ELSE [k \in 1..n |-> pos]
Src(sc) == Traj(sc.st, sc.src, Steps(sc))
Mic(sc) == Traj(sc.mt, sc.mic, Steps(sc))
\* the dimension an animation has: three when asked for and there
AnimView(dim, want3) == IF want3 /\ dim = 3 THEN 3 ELSE 2
\* --- a picture
Moved(t, pos) == \E k \in 1..Len(t), i \in 1..Len(pos) : t[k][i] # pos[i]
Thinned(t, i, step, d) == [k \in 1..((Len(t) + step - 1) \div step) |-> Proj(t[(k - 1) * step + 1][i], d)]
Walks(t, pos, step, d) == IF Moved(t, pos) THEN {Thinned(t, i, step, d) : i \in 1..Len(pos)} ELSE {}
Marks(pos, d) == {Proj(pos[i], d) : i \in 1..Len(pos)}
Labels(pos, d) == {<<"S" \o ToString(i - 1), Proj(pos[i], d)>> : i \in 1..Len(pos)}
Picture(sc, moving, d) ==
    LET s0 == IF sc.start \/ ~moving THEN sc.src ELSE Src(sc)[1]
        m0 == IF sc.start \/ ~moving THEN sc.mic ELSE Mic(sc)[1]
    IN  [limits |-> Proj(sc.room, d), src |-> Marks(s0, d), mic |-> Marks(m0, d),
         walks |-> IF ~moving THEN {} ELSE Walks(Src(sc), s0, sc.step, d) \cup Walks(Mic(sc), m0, sc.step, d),
         labels |-> IF sc.label THEN Labels(s0, d) ELSE {}]
\* a path that does not leave its point need not be seen
Standing(w) == \A k \in 1..Len(w) : w[k] = w[1]
\* --- an animation
Frames(sc) == LET n == (Steps(sc) + sc.step - 1) \div sc.step IN IF n > 0 THEN n ELSE 1
Least(a, b) == IF a < b THEN a ELSE b
Shown(sc, i) == Least((i - 1) * sc.step, Steps(sc) - 1) + 1         \* the step frame i shows
Trail(t, i, k, d) == [j \in 1..k |-> Proj(t[j][i], d)]
Frame(sc, i, d) ==
    LET k == Shown(sc, i) S == Src(sc) M == Mic(sc) IN
    [src |-> [n \in 1..Len(sc.src) |-> Proj(S[k][n], d)], mic |-> [n \in 1..Len(sc.mic) |-> Proj(M[k][n], d)],
     trails |-> {Trail(S, n, k, d) : n \in 1..Len(sc.src)} \cup {Trail(M, n, k, d) : n \in 1..Len(sc.mic)},
     labels |-> IF sc.label THEN [n \in 1..Len(sc.src) |-> Proj(S[k][n], d)] ELSE <<>>]
\* the time of a step in hundredths of a second of a signal of len/fs seconds
Timed(sc) == sc.len >= 0 /\ Steps(sc) > 1
IsTime(sc, i, c) == LET k == Shown(sc, i) - 1 num == 200 * k * sc.len den == 2 * sc.fs * (Steps(sc) - 1)
                    IN  c * den - num <= den \div 2 + 1 /\ num - c * den <= den \div 2 + 1
\* frames per second (fps in tenths), as a fraction rounded to a positive whole number
Rate(sc) == IF sc.fps > 0 THEN <<sc.fps, 10>> ELSE IF sc.len > 0 THEN <<Frames(sc) * sc.fs, sc.len>> ELSE <<6, 1>>
IsRate(sc, r) == LET f == Rate(sc) IN (r = 1 /\ 2 * f[1] <= 3 * f[2]) \/ (r > 1 /\ 2 * (r * f[2] - f[1]) <= f[2] /\ 2 * (f[1] - r * f[2]) <= f[2])
===============================================================================
