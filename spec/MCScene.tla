------------------------------- MODULE MCScene -------------------------------
(***************************************************************************)
(* A caller starts from a well-formed object and replaces fields one by one;  *)
(* every replacement that leaves the object well-formed is taken, every other  *)
(* is refused and the old object stays.  All objects reachable are emitted     *)
(* with the verdicts for every single-field replacement tried.                  *)
(***************************************************************************)
EXTENDS Scene
CONSTANTS What, Steps, EmitMod
VARIABLES obj, try, ok, n
vars == <<obj, try, ok, n>>

Nums == {"pos", "zero", "neg", "nan", "inf"}
Room0 == [shape |-> <<3>>, odd |-> "pos", fs |-> "pos", c |-> "pos", nbeta |-> 6, betaodd |-> "mid", t60 |-> "unset"]
Ent0 == [shape |-> <<2, 3>>, odd |-> "pos", hasori |-> TRUE, ori |-> <<2, 3>>, oriodd |-> "pos"]
Scene0 == [kind |-> "dynamic", rdim |-> 3, sdim |-> 3, mdim |-> 3, nsrc |-> 2, nmic |-> 2, hs |-> TRUE, hm |-> TRUE,
           st |-> <<3, 2, 3>>, mt |-> <<3, 2, 3>>, sodd |-> "pos", modd |-> "pos"]
Start == CASE What = "room" -> Room0 [] What = "entity" -> Ent0 [] What = "scene" -> Scene0
Ok(o) == CASE What = "room" -> RoomOk(o) [] What = "entity" -> EntityOk(o) [] What = "scene" -> SceneOk(o)
Init == obj = Start /\ try = Start /\ ok = TRUE /\ n = 0
\* up to two fields change at once, so that compensating changes are reachable
Vals(f) == CASE What = "room" /\ f = "shape" -> {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<1, 3>>}
             [] What = "room" /\ f = "odd" -> Nums
             [] What = "room" /\ f \in {"fs", "c"} -> Nums \ {"inf"}
             [] f = "nbeta" -> {0, 1, 4, 5, 6}
             [] f = "betaodd" -> {"zero", "one", "mid", "neg", "above1", "nan", "inf"}
             [] f = "t60" -> {"unset", "pos", "zero", "neg", "nan"}
             [] What = "entity" /\ f = "shape" -> {<<2>>, <<3>>, <<4>>, <<1>>, <<>>, <<1, 2>>, <<2, 3>>, <<3, 3>>, <<3, 2>>, <<2, 4>>, <<2, 1>>, <<1, 1, 3>>, <<2, 2, 2>>}
             [] What = "entity" /\ f = "odd" -> {"pos", "zero", "neg", "nan", "inf"}
             [] f \in {"hasori", "hs", "hm"} -> BOOLEAN
             [] f = "ori" -> {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<1, 2>>, <<2, 2>>, <<3, 1>>, <<3, 3>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<2, 1>>, <<1, 1>>, <<2, 4>>, <<1, 2, 3>>}
             [] f = "oriodd" -> {"pos", "neg", "nan", "inf"}
             [] f = "kind" -> {"static", "dynamic", "old"}
             [] f \in {"rdim", "sdim", "mdim"} -> {2, 3}
             [] f \in {"nsrc", "nmic"} -> {1, 2}
             [] f = "st" -> {<<3, 1, 3>>, <<3, 2, 3>>, <<3, 3>>, <<3, 2>>, <<3, 2, 2>>, <<2, 2, 3>>, <<3>>, <<1, 2, 3>>, <<3, 1, 2>>, <<3, 2, 3, 1>>, <<3, 4>>, <<3, 2, 4>>, <<3, 1, 4>>}
             [] f = "mt" -> {<<3, 1, 3>>, <<3, 2, 3>>, <<3, 3>>, <<2, 3>>, <<3, 2, 2>>, <<1, 2, 3>>, <<3, 1, 2>>, <<3, 2>>, <<3, 4>>, <<3, 2, 4>>, <<3, 1, 4>>, <<3>>}
             [] f \in {"sodd", "modd"} -> {"pos", "nan", "inf"}
Replace == /\ n < Steps
           /\ \E f \in DOMAIN obj, g \in DOMAIN obj :
                \E a \in Vals(f), b \in Vals(g) :
                   LET t == [[obj EXCEPT ![f] = a] EXCEPT ![g] = b] IN
                   /\ t # obj
                   /\ try' = t
                   /\ ok' = Ok(t)
                   /\ obj' = IF Ok(t) THEN t ELSE obj
           /\ n' = n + 1
Next == Replace
Spec == Init /\ [][Next]_vars
\* whatever was tried, the object held is well-formed
AlwaysWellFormed == Ok(obj)
Emit == n > 0 =>
  (((n = 1 /\ What = "scene")
      \/ (Len(ToJson(try)) * 37 + Len(ToString(obj)) * 11 + TLCGet("distinct")) % EmitMod = 0) =>
   PrintT("@@" \o ToJson([t |-> try, ok |-> ok, from |-> obj, dyn |-> What = "scene" /\ Dynamic(try)])))
View == <<try, n>>
=============================================================================
