-------------------------------- MODULE Motion --------------------------------
(* C17.  What a built scene may contain.  A scene is a record of integers
   abstracted from its two description files:
     lengths in 0.1 mm, angles in millidegrees, times in milliseconds, speeds in
     mm/s; per source and step the polar position about the array centre.       *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, d) == Abs(a - b) <= d
\* the difference of two angles, in (-180000, 180000]
Turn(a, b) == LET d == (b - a) % 360000 IN IF d > 180000 THEN d - 360000 ELSE d
Steps(s) == s.steps
Srcs(s) == 1..s.n
At(s, i, k) == s.path[i][k]                  \* [r, az, z, x, y]
Moves(s, i) == \E k \in 1..Steps(s) : ~Near(At(s, i, k).az, At(s, i, 1).az, 1) /\ Abs(Turn(At(s, i, 1).az, At(s, i, k).az)) > 2
Moving(s) == {i \in Srcs(s) : Moves(s, i)}

InRoom(s, p, m) == /\ p.x >= m[1] - 1 /\ p.x <= s.room[1] - m[1] + 1
                   /\ p.y >= m[2] - 1 /\ p.y <= s.room[2] - m[2] + 1
                   /\ p.z >= m[3] - 1 /\ p.z <= s.room[3] - m[3] + 1
Contained(s) == \A i \in Srcs(s) : \A k \in 1..Steps(s) : InRoom(s, At(s, i, k), s.margin)
FarEnough(s) == \A i \in Srcs(s) : \A k \in 1..Steps(s) : At(s, i, k).r >= s.mindist - 1
Arc(s) == \A i \in Srcs(s) : \A k \in 1..Steps(s) : Near(At(s, i, k).r, At(s, i, 1).r, 2) /\ At(s, i, k).z = At(s, i, 1).z
Spread(s) == \A i, j \in Srcs(s) : i # j =>
    LET d == (At(s, j, 1).az - At(s, i, 1).az) % 360000 q == 360000 \div s.n IN
    /\ (d % q <= 2 \/ d % q >= q - 2) /\ d > 10 /\ d < 360000 - 10

\* --- when.  Step k is at (k-1)/(steps-1) of the scene; one step of slack for
\* other conventions of the last step
Frac(s, k) == ((k - 1) * 1000) \div (s.steps - 1)
Slack(s) == 1000 \div (s.steps - 1) + 1
Before(s, k) == Frac(s, k) + Slack(s) <= s.t0
After(s, k) == Frac(s, k) - Slack(s) >= s.t1
Rests(s) == \A i \in Srcs(s) : \A k \in 1..Steps(s) :
    /\ Before(s, k) => Near(Turn(At(s, i, 1).az, At(s, i, k).az), 0, 2)
    /\ After(s, k) => Near(Turn(At(s, i, Steps(s)).az, At(s, i, k).az), 0, 2)
\* --- how fast: arc[i][k] is the signed arc from step k to k+1 in micrometres
Inner(s) == {k \in 1..Steps(s) - 1 : Frac(s, k) - Slack(s) >= s.t0 /\ Frac(s, k + 1) + Slack(s) <= s.t1}
\* the speed over the step, in mm/s: dt = dur / (steps-1) ms
SpeedOf(s, i, k) == (Abs(s.arc[i][k]) * (s.steps - 1)) \div s.dur
Speeds(s) == \A i \in Moving(s) : \A k \in Inner(s) :
    /\ SpeedOf(s, i, k) >= s.vmin - s.vtol /\ SpeedOf(s, i, k) <= s.vmax + s.vtol
    /\ Near(SpeedOf(s, i, k), s.info[i].speed, s.vtol)
OneWay(s) == \A i \in Moving(s) : \A k \in 1..Steps(s) - 1 :
    s.arc[i][k] = 0 \/ Abs(s.arc[i][k]) < 20 \/ (s.arc[i][k] > 0) = (s.info[i].dir > 0)
\* all of the way is gone: as far as speed and time say
Whole(s) == \A i \in Moving(s) :
    LET way == s.total[i] want == (s.info[i].speed * ((s.dur * (s.t1 - s.t0)) \div 1000)) \div 1000 IN      \* mm
    Near(Abs(way), want, s.vtol + s.dur \div 1000)
\* --- the descriptions
Told(s) == \A i \in Srcs(s) : LET d == s.info[i] IN
    /\ d.moving = (i \in s.movers) /\ d.index = i - 1
    /\ d.motion = (IF d.moving THEN "arc" ELSE "static")
    /\ IF d.moving THEN d.speed >= s.vmin - 1 /\ d.speed <= s.vmax + 1 /\ d.dir \in {-1, 1} /\ Near(d.angular, d.dir * d.angspeed, 2)
       ELSE d.speed = 0 /\ d.dir = 0 /\ d.angular = 0
    /\ Near(d.from_, (s.dur * s.t0) \div 1000, 1) /\ Near(d.to, (s.dur * s.t1) \div 1000, 1)
    /\ Near(Turn(d.startaz, At(s, i, 1).az), 0, 2)
    /\ (s.steps > 1 => Near(Turn(d.endaz, At(s, i, Steps(s)).az), 0, 2))
Movers(s) == /\ Cardinality(s.movers) = s.nmoving
             /\ s.movers \subseteq Srcs(s)
             /\ s.steps > 1 => Moving(s) = s.movers
Counts(s) == s.told.n = s.n /\ s.told.nmoving = s.nmoving /\ s.told.edge = s.edge /\ s.told.step = 360000 \div s.n
             /\ s.told.mindist >= 15000 /\ s.told.total = s.dur /\ s.told.pre = s.t0 /\ s.told.move = s.t1 - s.t0
             /\ s.told.post = 1000 - s.t1 /\ s.agree
\* --- the array: six places around the recorded centre, 0.1 mm
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
Octahedron(s) ==
    LET P == s.mics tol == 8 * s.edge + 40
        E == {p \in (1..6) \X (1..6) : p[1] < p[2] /\ Near(D2(P[p[1]], P[p[2]]), s.edge * s.edge, tol)}
        F == {p \in (1..6) \X (1..6) : p[1] < p[2] /\ Near(D2(P[p[1]], P[p[2]]), 2 * s.edge * s.edge, 2 * tol)}
    IN /\ Len(P) = 6 /\ Cardinality(E) = 12 /\ Cardinality(F) = 3
       /\ \A j \in 1..3 : Near(P[1][j] + P[2][j] + P[3][j] + P[4][j] + P[5][j] + P[6][j], 0, 6)
       /\ \A i \in 1..6 : \A j \in 1..3 : P[i][j] + s.centre[j] >= -1 /\ P[i][j] + s.centre[j] <= s.room[j] + 1
       /\ s.centre_fixed => \A j \in 1..3 : Near(s.centre[j], s.centre_asked[j], 1)
       /\ s.micsrest

\* --- the audio: a fit of all stems against the reported utterances heard along
\* the reported trajectories, by one factor in 1/10000
\* (1 unless the scene would clip); the error in quantisation steps
Audio(s) == s.audioerr <= 3 /\ s.scale <= 10050

SceneWrong(s) ==
    IF ~Contained(s) THEN "a source leaves the room or its margin"
    ELSE IF ~FarEnough(s) THEN "a source is too close to the array"
    ELSE IF ~Arc(s) THEN "a source does not keep its radius and height"
    ELSE IF ~Spread(s) THEN "sources are not spread at equal azimuth steps"
    ELSE IF ~Movers(s) THEN "other sources move than requested or described"
    ELSE IF s.steps > 3 /\ ~Rests(s) THEN "a source moves outside the middle of the scene"
    ELSE IF s.steps > 3 /\ ~Speeds(s) THEN "a source moves at another speed"
    ELSE IF s.steps > 3 /\ ~OneWay(s) THEN "a source moves in another direction than described"
    ELSE IF s.steps > 1 /\ ~Whole(s) THEN "a source does not go the described way"
    ELSE IF ~Told(s) THEN "the description of a source disagrees with its motion"
    ELSE IF ~Counts(s) THEN "the scene description disagrees with the request"
    ELSE IF ~Octahedron(s) THEN "the microphones are not the requested octahedron"
    ELSE IF ~Audio(s) THEN "the audio is not the reported utterances along the reported trajectories"
    ELSE ""
===============================================================================
