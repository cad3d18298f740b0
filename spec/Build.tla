-------------------------------- MODULE Build ---------------------------------
(* C16.  The life of a dataset directory under builds.

   An operation is [req, valid, ow, fault]: which request, "yes" / "early"
   (refusable from the arguments and the corpus alone) / "late" (no placement
   can be found), whether overwriting is allowed, and whether the process was
   killed ("kill") or the disk refused it something ("disk").  What is on disk is [k |-> "absent" | "kept" | "data" | "mess", req]:
   nothing, something that was there before, the complete data of a request, or
   the leftovers of a build that did not finish.                              *)
EXTENDS Naturals, Sequences, FiniteSets

Absent == [k |-> "absent", req |-> ""]
Mess == [k |-> "mess", req |-> ""]
Data(r) == [k |-> "data", req |-> r]

\* the allowed results of an operation: [ok, disk]
Results(disk, op) ==
    IF disk # Absent /\ ~op.ow THEN {[end |-> "error", disk |-> disk]}
    ELSE IF op.valid = "early" THEN {[end |-> "error", disk |-> disk]}
    ELSE IF op.valid = "late" THEN {[end |-> "error", disk |-> d] : d \in {disk, Absent, Mess}}
    ELSE {[end |-> "ok", disk |-> Data(op.req)]}
\* a killed process may have stopped anywhere on the way, or been too late
KilledResults(disk, op) ==
    IF op.valid = "early" \/ (disk # Absent /\ ~op.ow) THEN {disk}
    ELSE {disk, Absent, Mess} \cup (IF op.valid = "yes" THEN {Data(op.req)} ELSE {})
\* a refused effect may end the build anywhere, but never passes for success
HurtResults(disk, op) == Results(disk, op) \cup {[end |-> "error", disk |-> d] : d \in KilledResults(disk, op)}
Allowed(disk, op, end, after) ==
    IF end = "killed" THEN op.fault = "kill" /\ after \in KilledResults(disk, op)
    ELSE IF op.fault = "disk" THEN [end |-> end, disk |-> after] \in HurtResults(disk, op)
    ELSE [end |-> end, disk |-> after] \in Results(disk, op)

\* --- one scene: names of its files, and per audio file rate, frames, channels
Wanted(n, im) == {"mixture.wav", "metadata.json", "source_info.json"}
                 \cup {IF i < 10 THEN "source_0" \o <<"0","1","2","3","4","5","6","7","8","9">>[i + 1] \o ".wav" ELSE "" : i \in 0..n - 1}
                 \cup im
SceneWrong(s) ==
    IF {s.names[i] : i \in 1..Len(s.names)} # Wanted(s.n, {s.images[i] : i \in 1..Len(s.images)}) THEN "other files than requested"
    ELSE IF Len(s.audio) # s.n + 1 THEN "unreadable audio"
    ELSE IF \E i \in 1..Len(s.audio) : s.audio[i].rate # s.rate THEN "another sampling rate than the corpus"
    ELSE IF \E i \in 1..Len(s.audio) : s.audio[i].chans # 6 THEN "not one channel per microphone"
    ELSE IF Cardinality({s.audio[i].frames : i \in 1..Len(s.audio)}) # 1 THEN "different lengths"
    ELSE IF s.audio[1].frames # s.frames THEN "not as long as signal and response"
    ELSE IF s.sumerr > s.n + 1 THEN "the mixture is not the sum of its sources"
    ELSE IF s.peak >= 32767 THEN "clipped"
    ELSE IF s.silent THEN "silent"
    ELSE ""
===============================================================================
