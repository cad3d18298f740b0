------------------------------- MODULE MCRender -------------------------------
EXTENDS Render, TLC, Json
CONSTANTS Emit
Faults == {<<0, "refuse">>, <<1, "broken">>} \cup {<<n, h>> : n \in 1..4, h \in {"refuse", "partial"}}
Base == [kind : {"plots", "layout", "gifs", "videos"}, dim : {2, 3}, w2 : BOOLEAN, w3 : BOOLEAN, st : BOOLEAN, mt : BOOLEAN,
         f : Faults, mix : {"off", "absent", "unreadable", "good"}, tool : {"ok", "missing", "fails", "late", "nostart", "silent"}]
Sane(s) == /\ s.kind \in {"gifs", "videos"} => s.w2 /\ s.st /\ s.mt
           /\ s.kind = "gifs" => s.w3
           /\ s.mix # "off" => s.kind = "videos"
           /\ s.mix # "good" => s.tool = "ok"
           /\ s.f[1] <= Len(Views(s))
           /\ s.f[1] = 0 \/ s.f[2] = "broken" => TRUE
All1 == {s \in Base : Sane(s)}
Sc == {[kind |-> s.kind, dim |-> s.dim, w2 |-> s.w2, w3 |-> s.w3, st |-> s.st, mt |-> s.mt, n |-> s.f[1], how |-> s.f[2],
        mix |-> s.mix, tool |-> s.tool] : s \in All1}
ASSUME Emit => PrintT("@@" \o ToJson([pairs |-> {<<n, a, b, Pair(n, <<a, b>>)>> : n \in 1..6, a \in -2..6, b \in -2..6}]))
\* one record per finished behaviour
Out == at = "end" /\ Emit => PrintT("@@" \o ToJson([sc |-> sc, saved |-> saved, warned |-> warned, log |-> log,
        file |-> {<<x, file[x]>> : x \in {y \in All : file[y] # "none"}}, asked |-> Views(sc),
        names |-> {<<x, Name(x, "@")>> : x \in All}]))
===============================================================================
