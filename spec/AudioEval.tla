------------------------------- MODULE AudioEval -------------------------------
EXTENDS Audio, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 0
Out(c) == IF Refused(c.norm, c.peak) THEN [id |-> c.id, ok |-> FALSE]
    ELSE LET f == File(c.x, c.norm, c.peak) IN
         [id |-> c.id, ok |-> TRUE, chans |-> f.chans, frames |-> f.frames, data |-> f.data,
          num |-> f.factor.num, den |-> f.factor.den, first |-> First(f)]
\* which names the wav-only entry points take: a name is letters and their case
Names == {"wav", "wave", "flac", "mp3", "ogg", "aiff", "", "wavx", "xwav", "w64", "wav2"} \X {"lower", "upper", "mixed"}
Gates == {[suffix |-> n[1], casing |-> n[2], ok |-> n[1] \in Wavs] : n \in Names}
ASSUME PrintT("@@" \o ToJson([gates |-> Gates]))
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("@@" \o ToJson(Out(Cases[i'])))
Spec == Init /\ [][Next]_i
===============================================================================
