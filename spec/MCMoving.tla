------------------------------ MODULE MCMoving ------------------------------
(***************************************************************************)
(* A moving scene: sources and microphones walk on the integer grid of a    *)
(* 2-D room; after every step the simulator appends one response set to the *)
(* result.  A response is the set of (image index, squared distance, wall   *)
(* hits) terms of Ism.tla.  The result is built frame by frame; the         *)
(* invariants state what a user relies on: frame t is the static response   *)
(* at the step-t positions, pairs do not influence each other, exchanging   *)
(* source and microphone changes nothing.                                   *)
(***************************************************************************)
EXTENDS Ism, TLC, Json
CONSTANTS LX, LY, T, Order, NSrc, NMic, EmitMod
VARIABLES traj, result
vars == <<traj, result>>
Room == <<LX, LY>>
Grid == {<<x, y>> : x \in 0..LX, y \in 0..LY}
Idx == OrderSet(2, Order)

Term(s, r, n) == LET im == ImageOf(Room, s, n) IN
   [n |-> n, d2 |-> D2(<<r[1] - im[1].x, r[2] - im[2].x>>),
    lo |-> <<im[1].lo, im[2].lo>>, hi |-> <<im[1].hi, im[2].hi>>]
Static(s, r) == {Term(s, r, n) : n \in Idx}
FrameOf(pos) == [s \in 1..NSrc |-> [m \in 1..NMic |-> Static(pos.src[s], pos.mic[m])]]

\* one grid move (or stay) of one device
Moves(p) == {q \in Grid : Abs(q[1] - p[1]) + Abs(q[2] - p[2]) <= 1}
\* devices move one at a time; keeps the walk space small but reaches every mix
NextPos(pos) ==
  {[pos EXCEPT !.src[s] = q] : s \in 1..NSrc, q \in Grid} \cup
  {[pos EXCEPT !.mic[m] = q] : m \in 1..NMic, q \in Grid}
StepPos(pos) == {p \in NextPos(pos) :
   /\ \A s \in 1..NSrc : p.src[s] \in Moves(pos.src[s])
   /\ \A m \in 1..NMic : p.mic[m] \in Moves(pos.mic[m])
   /\ \A s \in 1..NSrc, m \in 1..NMic : p.src[s] # p.mic[m]}

Init == \E sp \in [1..NSrc -> Grid], mp \in [1..NMic -> Grid] :
   /\ \A s \in 1..NSrc, m \in 1..NMic : sp[s] # mp[m]
   /\ traj = <<[src |-> sp, mic |-> mp]>>
   /\ result = <<FrameOf([src |-> sp, mic |-> mp])>>
Advance == /\ Len(traj) < T
           /\ \E p \in StepPos(traj[Len(traj)]) :
                /\ traj' = Append(traj, p)
                /\ result' = Append(result, FrameOf(p))
Next == Advance
Spec == Init /\ [][Next]_vars

FramesAreStatic == \A t \in 1..Len(traj) : result[t] = FrameOf(traj[t])
OneFramePerStep == Len(result) = Len(traj)
\* the response of one pair is what a scene holding only that pair gives
PairLocal == \A t \in 1..Len(traj), s \in 1..NSrc, m \in 1..NMic :
   result[t][s][m] = Static(traj[t].src[s], traj[t].mic[m])
Strip(S) == {[d2 |-> x.d2, lo |-> x.lo, hi |-> x.hi] : x \in S}
Reciprocal == \A t \in 1..Len(traj), s \in 1..NSrc, m \in 1..NMic :
   Strip(result[t][s][m]) = Strip(Static(traj[t].mic[m], traj[t].src[s]))
\* standing still repeats the frame
StillRepeats == \A t \in 1..(Len(traj) - 1) :
   traj[t] = traj[t + 1] => result[t] = result[t + 1]

\* history appended frames never change earlier ones
AppendOnly == [][\A t \in 1..Len(result) : result'[t] = result[t]]_vars

\* replay generation: emit a sampled subset of complete walks
Hash == SumSeq([t \in 1..Len(traj) |-> t * 7 * SumSeq([s \in 1..NSrc |-> s * (3 * traj[t].src[s][1] + 5 * traj[t].src[s][2])])
        + t * 11 * SumSeq([m \in 1..NMic |-> m * (2 * traj[t].mic[m][1] + 13 * traj[t].mic[m][2])])])
Emit == (Len(traj) = T /\ Hash % EmitMod = 0) =>
   PrintT("@@" \o ToJson([src |-> [t \in 1..T |-> traj[t].src], mic |-> [t \in 1..T |-> traj[t].mic]]))
=============================================================================
