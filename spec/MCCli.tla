------------------------------- MODULE MCCli -------------------------------
(* Every command line of up to MaxLen tokens over a small table, read token by token. *)
EXTENDS Cli, TLC
CONSTANT MaxLen
VARIABLES line, s, done
vars == <<line, s, done>>
V(i) == [int |-> i, word |-> i]
Table == <<One("--need", "need", "word"), One("--num", "num", "int"), On("--fl", "fl", "yes"), On("--no-fl", "fl", "no"),
           [opt |-> "--many", par |-> "many", arity |-> "many", type |-> "word", gives |-> ""]>>
Defaults == [need |-> Required, num |-> <<"7">>, fl |-> <<"yes">>, many |-> <<"d">>]
Vals == {V("1"), V("2"), [int |-> "", word |-> "x"]}
Names == {"--need", "--num", "--fl", "--no-fl", "--many", "--what"}
Toks == [k : {"opt"}, name : Names] \cup {[k |-> "val"] @@ v : v \in Vals}
        \cup {[k |-> "opteq", name |-> n, int |-> "2", word |-> "2"] : n \in {"--num"}}
Init == line = <<>> /\ s = Start(Defaults) /\ done = FALSE
ReadOne == /\ ~done /\ Len(line) < MaxLen
           /\ \E t \in Toks : line' = Append(line, t) /\ s' = Step(Table, s, t) /\ UNCHANGED done
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<line, s>>
Next == ReadOne \/ Stop
Spec == Init /\ [][Next]_vars
R == End(s)
IsOpt(t) == t.k # "val"
\* what the line says, without reading it step by step
Uses(o) == {i \in 1..Len(line) : IsOpt(line[i]) /\ line[i].name = o}
Mx(S) == CHOOSE x \in S : \A y \in S : y <= x
NextOpt(i) == LET S == {j \in (i + 1)..Len(line) : IsOpt(line[j])} IN IF S = {} THEN Len(line) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Follow(i) == NextOpt(i) - i - 1
Wrong(i) == LET t == line[i] IN
    /\ IsOpt(t)
    /\ \/ t.name = "--what"
       \/ t.k = "opteq" /\ Follow(i) > 0
       \/ t.k = "opt" /\ t.name \in {"--fl", "--no-fl"} /\ Follow(i) > 0
       \/ t.k = "opt" /\ t.name \in {"--need", "--num"} /\ Follow(i) # 1
       \/ t.k = "opt" /\ t.name = "--many" /\ Follow(i) = 0
       \/ t.k = "opt" /\ t.name = "--num" /\ Follow(i) = 1 /\ line[i + 1].int = ""
Refusable == (line # <<>> /\ ~IsOpt(line[1])) \/ (\E i \in 1..Len(line) : Wrong(i)) \/ Uses("--need") = {}
RefusedIffWrong == R.ok <=> ~Refusable
Told(i) == IF line[i].k = "opteq" THEN line[i].int ELSE line[i + 1].int
LastWins == R.ok =>
    /\ R.args.num = (<<IF Uses("--num") = {} THEN "7" ELSE Told(Mx(Uses("--num")))>>)
    /\ R.args.fl = (LET F == Uses("--fl") \cup Uses("--no-fl") IN <<IF F = {} THEN "yes" ELSE IF line[Mx(F)].name = "--fl" THEN "yes" ELSE "no">>)
    /\ R.args.many = (IF Uses("--many") = {} THEN <<"d">>
                      ELSE LET i == Mx(Uses("--many")) IN [j \in 1..Follow(i) |-> line[i + j].word])
    /\ R.args.need = <<line[Mx(Uses("--need")) + 1].word>>
\* groups of tokens in another order say the same, unless they speak of the same parameter
Rotated(i) == SubSeq(line, i, Len(line)) \o SubSeq(line, 1, i - 1)
Pars(l) == {CASE l[i].name \in {"--fl", "--no-fl"} -> "fl" [] OTHER -> l[i].name : i \in {j \in 1..Len(l) : IsOpt(l[j])}}
OrderFree == (R.ok /\ Len(line) <= 5) => \A i \in 2..Len(line) :
    (IsOpt(line[i]) /\ Pars(SubSeq(line, 1, i - 1)) \cap Pars(SubSeq(line, i, Len(line))) = {})
        => Read(Table, Defaults, Rotated(i)) = R
=============================================================================
