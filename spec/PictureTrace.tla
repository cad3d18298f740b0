----------------------------- MODULE PictureTrace ------------------------------
(* Judges recorded pictures and animations: a state per frame seen.            *)
EXTENDS Picture, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, i, ok
vars == <<n, i, ok>>
S(seq) == {seq[k] : k \in 1..Len(seq)}
PicWhy(c) ==
    LET e == Picture(c.sc, c.moving, c.view) g == c.seen IN
    IF g.limits # e.limits THEN "limits"
    ELSE IF S(g.src) # e.src THEN "sources"
    ELSE IF S(g.mic) # e.mic THEN "microphones"
    ELSE IF ~(S(g.walks) \subseteq e.walks \cup {w \in S(g.walks) : Standing(w) /\ w[1] \in e.src \cup e.mic}) THEN "paths not walked"
    ELSE IF ~({w \in e.walks : ~Standing(w)} \subseteq S(g.walks)) THEN "paths missing"
    ELSE IF S(g.labels) # e.labels \/ Len(g.labels) # (IF c.sc.label THEN Len(c.sc.src) ELSE 0) THEN "labels"
    ELSE "ok"
FrameWhy(c, k) ==
    LET e == Frame(c.sc, k, c.view) g == c.frames[k] IN
    IF g.limits # Proj(c.sc.room, c.view) THEN "limits"
    ELSE IF g.src # e.src THEN "sources"
    ELSE IF g.mic # e.mic THEN "microphones"
    ELSE IF S(g.trails) # e.trails THEN "trails"
    ELSE IF g.labels # e.labels THEN "labels"
    ELSE IF Timed(c.sc) /\ ~IsTime(c.sc, k, g.time) THEN "time"
    ELSE IF ~Timed(c.sc) /\ g.time >= 0 THEN "a time that is not known"
    ELSE "ok"
AnimWhy(c) == IF Len(c.frames) # Frames(c.sc) THEN "number of frames" ELSE IF ~IsRate(c.sc, c.rate) THEN "frame rate" ELSE "ok"
Why == LET c == Cases[n] IN
       IF c.kind = "picture" THEN PicWhy(c) ELSE IF i = 0 THEN AnimWhy(c) ELSE FrameWhy(c, i)
Say(w, k) == IF w = "ok" THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Cases[n].id, why |-> w, at |-> k]))
Init == n \in 1..Len(Cases) /\ i = 0 /\ ok = (Why = "ok") /\ Say(Why, 0)
Next == /\ ok /\ Cases[n].kind = "anim" /\ i < Len(Cases[n].frames)
        /\ n' = n /\ i' = i + 1 /\ ok' = (Why' = "ok") /\ Say(Why', i')
Spec == Init /\ [][Next]_vars
===============================================================================
