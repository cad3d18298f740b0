-------------------------------- MODULE Render --------------------------------
(* C21.  Saving pictures, animations and videos of a scene, whose every step can
   fail, and adding sound to a video with an external tool that can fail too.

   A scenario sc: kind, dim, the flags w2 and w3, which trajectories are given
   (st, mt), the fault of drawing number n (n = 0: none; how: "refuse" leaves
   what was there, "partial" leaves a torn file, "broken" that nothing can be
   drawn), the mixture and what the tool does when adding sound.
   file  view -> "none" | "torn" | "plain" | "sound"
   Flaws (each violates an invariant): "escape" "early" "unasked" "inplace"
   "leave" "trust" "mute"                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Scenarios, Flaw
VARIABLES sc, todo, at, file, tmp, saved, warned, drawn, log
vars == <<sc, todo, at, file, tmp, saved, warned, drawn, log>>

\* --- what is to be drawn, in order
Views(s) ==
    LET w(v) == IF v = 2 THEN s.w2 ELSE s.w3 /\ s.dim = 3
        moving == s.st \/ s.mt
        pics(v) == IF ~w(v) THEN <<>>
                   ELSE IF s.kind = "plots" THEN <<<<"static", v>>>> \o (IF moving THEN <<<<"dynamic", v>>>> ELSE <<>>)
                   ELSE <<<<s.kind, v>>>>
    IN  pics(2) \o pics(3)
Name(v, prefix) == CASE v[1] = "static" -> prefix \o "_static_" \o ToString(v[2]) \o "d.png"
                     [] v[1] = "dynamic" -> prefix \o "_dynamic_" \o ToString(v[2]) \o "d.png"
                     [] v[1] = "layout" -> "room_layout_" \o ToString(v[2]) \o "d.png"
                     [] v[1] = "videos" -> "room_layout_" \o ToString(v[2]) \o "d.mp4"
                     [] v[1] = "gifs" -> prefix \o (IF v[2] = 2 THEN ".gif" ELSE "_3d.gif")
All == {<<k, v>> : k \in {"static", "dynamic", "layout", "videos", "gifs"}, v \in {2, 3}}
\* the pair of channels that is added (0-based), of n channels
Pair(n, want) == IF n = 1 THEN <<0, 0>> ELSE IF want[1] \in 0..(n - 1) /\ want[2] \in 0..(n - 1) THEN want ELSE <<0, 1>>

Sounding(s) == s.kind = "videos" /\ s.mix # "off"
Asked == {Views(sc)[i] : i \in 1..Len(Views(sc))}
v == todo[1]
Nth == Len(Views(sc)) - Len(todo) + 1
\* a tool that vanished or broke while adding sound cannot draw the next video either
NoTool == sc.kind = "videos" /\ Sounding(sc) /\ sc.mix = "good" /\ sc.tool \in {"missing", "nostart"} /\ drawn # {}

Init == /\ sc \in Scenarios
        /\ todo = Views(sc) /\ at = "draw"
        /\ file = [x \in All |-> "none"] /\ tmp = {} /\ saved = {} /\ warned = FALSE /\ drawn = {} /\ log = <<>>

Fault == /\ warned' = (Flaw # "mute") /\ log' = Append(log, "fault")
         /\ IF Flaw = "escape" THEN at' = "raised" /\ UNCHANGED todo
            ELSE \/ at' = "end" /\ todo' = <<>>                     \* give up the rest
                 \/ at' = "draw" /\ todo' = Tail(todo)               \* or go on with it
Draw == /\ at = "draw" /\ todo # <<>>
        /\ IF sc.n = Nth \/ sc.how = "broken" \/ NoTool
           THEN /\ file' = (IF sc.how = "partial" THEN [file EXCEPT ![v] = "torn"] ELSE file)
                /\ saved' = (IF Flaw = "early" THEN saved \cup {v} ELSE saved)
                /\ Fault /\ UNCHANGED <<tmp, drawn>>
           ELSE /\ file' = [x \in All |-> IF x = v \/ (Flaw = "unasked" /\ x = <<v[1], 3>>) THEN "plain" ELSE file[x]]
                /\ drawn' = drawn \cup {v} /\ log' = Append(log, "draw")
                /\ at' = (IF Sounding(sc) THEN "mix" ELSE "report")
                /\ UNCHANGED <<todo, tmp, saved, warned>>
        /\ UNCHANGED sc
Mute(how) == \* sound could not be added: reported, and the video itself is saved, or its saving is given up
    /\ warned' = (Flaw # "mute") /\ log' = Append(log, how)
    /\ \/ at' = "report" /\ UNCHANGED todo
       \/ at' = "end" /\ todo' = <<>>
Mix == /\ at = "mix"
       /\ \/ /\ sc.mix # "good" /\ Mute("nomix") /\ UNCHANGED tmp
          \/ /\ sc.mix = "good" /\ at' = "tool" /\ tmp' = tmp \cup {<<v, "audio">>} /\ UNCHANGED <<todo, warned, log>>
       /\ UNCHANGED <<sc, file, saved, drawn>>
Tool == /\ at = "tool"
        /\ CASE sc.tool = "ok" -> /\ at' = "swap" /\ UNCHANGED <<todo, warned, log>>
             [] sc.tool \in {"fails", "late"} -> IF Flaw = "trust" THEN at' = "swap" /\ UNCHANGED <<todo, warned, log>> ELSE Mute(sc.tool)
             [] OTHER -> Mute(sc.tool)
        /\ tmp' = (IF sc.tool = "ok" \/ (sc.tool \in {"fails", "late"} /\ Flaw = "trust") THEN tmp \cup {<<v, "video">>}
                   ELSE IF Flaw = "leave" /\ sc.tool = "nostart" THEN tmp ELSE {})
        /\ file' = (IF Flaw = "inplace" /\ sc.tool \in {"ok", "late"} THEN [file EXCEPT ![v] = "torn"] ELSE file)
        /\ UNCHANGED <<sc, saved, drawn>>
Swap == /\ at = "swap" /\ file' = [file EXCEPT ![v] = IF sc.tool = "ok" THEN "sound" ELSE "torn"]
        /\ tmp' = {} /\ at' = "report" /\ log' = Append(log, "sound")
        /\ UNCHANGED <<sc, todo, saved, warned, drawn>>
Report == /\ at = "report"
          /\ saved' = saved \cup {v}
          /\ todo' = Tail(todo) /\ at' = "draw"
          /\ UNCHANGED <<sc, file, tmp, warned, drawn, log>>
\* a saver that reports only at its end says nothing of what it drew before a fault
Withheld == /\ at = "end" /\ warned /\ saved # {} /\ sc.kind = "plots" /\ saved' = {}
            /\ UNCHANGED <<sc, todo, at, file, tmp, warned, drawn, log>>
End == /\ at = "draw" /\ todo = <<>> /\ at' = "end" /\ UNCHANGED <<sc, todo, file, tmp, saved, warned, drawn, log>>
Next == Draw \/ Mix \/ Tool \/ Swap \/ Report \/ Withheld \/ End
Spec == Init /\ [][Next]_vars

\* --- the property
Quiet == at # "raised"
Whole == \A x \in saved : file[x] \in {"plain", "sound"}
Requested == \A x \in All : file[x] # "none" => x \in Asked
Intact == \A x \in drawn : file[x] \in {"plain", "sound"}
OnlyByTool == \A x \in drawn : file[x] = "sound" => sc.mix = "good" /\ sc.tool = "ok"
NoLeftovers == at \in {"end", "raised"} => tmp = {}
Told == at = "end" => (saved = Asked \/ warned)
Reported == (at = "end" /\ (\E i \in 1..Len(log) : log[i] \notin {"draw", "sound"})) => warned
===============================================================================
