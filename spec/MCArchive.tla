------------------------------ MODULE MCArchive ------------------------------
(* Archives grow member by member; laws of the verdict, and the single-member
   table for replay. *)
EXTENDS Archive, TLC, Json
CONSTANTS MaxMembers, MaxComps, Names, Kinds, EmitLen
Dest == <<"p", "dest">>
Links == {[at |-> <<"p", "dest", "O">>, to |-> <<"out">>], [at |-> <<"p", "dest", "I">>, to |-> <<"p", "dest", "a">>]}
VARIABLES ms
CompSeqs == UNION {[1..n -> Names] : n \in 1..MaxComps}
Member == [abs : BOOLEAN, comps : CompSeqs, kind : Kinds, body : {1}]
Init == ms = <<>>
Next == Len(ms) < MaxMembers /\ \E m \in Member : ms' = Append(ms, [m EXCEPT !.body = Len(ms) + 1])
Spec == Init /\ [][Next]_ms

V == Verdict(Dest, Links, ms)
\* plain relative names never leave the destination
PlainIsSafe == (\A i \in 1..Len(ms) : ~ms[i].abs /\ ms[i].kind \in {"file", "dir"}
                    /\ \A k \in 1..Len(ms[i].comps) : ms[i].comps[k] \in {"a", "b", "."}) => V # "refuse"
LinksRefused == (\E i \in 1..Len(ms) : ms[i].kind \in {"sym", "hard"}) => V = "refuse"
\* everything that would be written is inside
Contained == V # "refuse" => \A i \in 1..Len(ms) : Inside(Dest, Resolve(Links, Dest, ms[i]))
\* the verdict does not depend on the order, and a refusal is final
OrderFree == Len(ms) = 2 => Verdict(Dest, Links, <<ms[2], ms[1]>>) = V
Sticky == Len(ms) > 1 => (Verdict(Dest, Links, SubSeq(ms, 1, Len(ms) - 1)) = "refuse" => V = "refuse")
\* without links on disk resolution is textual
NoLinksTextual == \A i \in 1..Len(ms) : Resolve({}, Dest, ms[i]) = Plain(Dest, ms[i])
Emit == Len(ms) = EmitLen => PrintT("@@" \o ToJson([ms |-> ms, verdict |-> V]))
=============================================================================
