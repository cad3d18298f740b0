------------------------------- MODULE Backends --------------------------------
(* C26.  The audio entry points choose a backend: the one named in the call, or
   else the one selected last.  Entry points for wav only look at the explicit
   format, or else at the name.  TLC generates histories of selections and calls
   with what each must do.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Known, Unknown, First, Depth, Flaw
VARIABLES selected, hist
vars == <<selected, hist>>
None == "none"
Wavs == {"wav", "wave"}
Init == selected = First /\ hist = <<>>
Note(r) == hist' = Append(hist, r)
Select(b) == /\ selected' = (IF b \in Known \/ Flaw = "late" THEN b ELSE selected)
             /\ Note([op |-> "select", name |-> b, ok |-> b \in Known, after |-> selected'])
\* a call names a backend or none; passes is whether the name and format are fine
Used(b) == IF b = None THEN selected ELSE b
Call(b, passes) ==
    /\ selected' = (IF Flaw = "sticky" /\ passes /\ b \in Known THEN b ELSE selected)
    /\ Note([op |-> "call", name |-> b, passes |-> passes, ok |-> passes /\ Used(b) \in Known,
             used |-> (IF passes /\ Used(b) \in Known THEN Used(b) ELSE None), after |-> selected'])
Next == /\ Len(hist) < Depth
        /\ \/ \E b \in Known \cup {Unknown} : Select(b)
           \/ \E b \in Known \cup {Unknown, None}, p \in BOOLEAN : Call(b, p)
Spec == Init /\ [][Next]_vars
\* --- the wav gate: letters decide, not their case; "" is absent
Gate(suffix, format) == (IF format # "" THEN format ELSE suffix) \in Wavs
Letters == {"wav", "wave", "flac", "mp3", "", "wavx", "w"}
Gates == {[suffix |-> s, format |-> f, ok |-> Gate(s, f)] : s \in Letters, f \in Letters}
ASSUME PrintT("@@" \o ToJson([gates |-> Gates]))
\* --- what must hold
LastSelect == LET S == {k \in 1..Len(hist) : hist[k].op = "select" /\ hist[k].ok} IN
              IF S = {} THEN First ELSE hist[CHOOSE k \in S : \A j \in S : j <= k].name
Latest == selected = LastSelect
Usable == selected \in Known
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([hist |-> hist]))
===============================================================================
