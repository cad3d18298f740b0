---- MODULE MCMetadata ----
(* All small scenes: a line of NPos places, up to two devices a side. Flaw names a mistaken description. *)
EXTENDS Metadata
CONSTANTS NPos, MaxT, Flaw
Pt == {<<x, y>> : x \in 0..NPos, y \in 0..1}
Pos(n) == [1..n -> Pt]
VARIABLES s, done
Trajs(n) == {<<>>} \cup UNION {[1..T -> [1..n -> {<<x, 0>> : x \in 0..NPos}]] : T \in 1..MaxT}
Init == /\ done = FALSE
        /\ s \in [dim : {2}, src : Pos(1), mic : Pos(1) \cup Pos(2), srcTraj : Trajs(1), micTraj : Trajs(1), given : {FALSE}, len : {-1, 0, 1, 5}]
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, done>>
D == Describe(s)
Dyn == IF Flaw = "given" THEN s.srcTraj # <<>> \/ s.micTraj # <<>> ELSE D.dynamic
Exp == IF Flaw = "sources" THEN IF s.micTraj = <<>> THEN <<s.mic>> ELSE s.micTraj ELSE D.mic

StepsAgree == D.ok /\ D.dynamic => Len(D.src) = D.steps /\ Len(Exp) = D.steps /\ Len(D.doa) = D.steps
DynamicIff == D.ok => (Dyn <=> \E T \in 2..MaxT : Len(s.srcTraj) = T \/ Len(s.micTraj) = T)
Still == D.ok /\ s.srcTraj = <<>> /\ D.dynamic => \A t \in 1..D.steps : D.src[t] = s.src
Contradiction == Len(s.srcTraj) > 1 /\ Len(s.micTraj) > 1 /\ Len(s.srcTraj) # Len(s.micTraj) => ~D.ok
WrongCount == s.micTraj # <<>> /\ Len(s.mic) = 2 => ~D.ok
\* seen the other way round, the direction is opposite
Turned == [s EXCEPT !.src = s.mic, !.mic = s.src, !.srcTraj = s.micTraj, !.micTraj = s.srcTraj]
Opposite == D.ok => /\ Accepts(Turned)
                    /\ \A t \in 1..D.steps, i \in 1..Len(s.src), j \in 1..Len(s.mic) :
                         Doa(Turned)[t][j][i] = [k \in 1..2 |-> -D.doa[t][i][j][k]]
Even == D.ok /\ D.times.kind = "even" =>
          /\ D.times.num[1] = 0 /\ (s.len > 0 => D.times.num[D.steps] = (D.steps - 1) * (s.len - 1))
          /\ \A t \in 2..D.steps - 1 : D.times.num[t + 1] - D.times.num[t] = D.times.num[t] - D.times.num[t - 1]
Spacing == D.ok => \A i, j \in 1..Len(s.mic) : i # j => Sq(Sub(s.mic[i], s.mic[j])) >= D.spacing
====
