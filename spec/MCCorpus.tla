------------------------------- MODULE MCCorpus -------------------------------
(* Two handles on one small corpus, each listing through whatever order the
   directory happens to give.  Policy "data" orders by the data, "disk" keeps
   the directory's order (a flaw TLC must find), "shared" keeps one listing for
   all handles of the process (another).                                       *)
EXTENDS Corpus, TLC
CONSTANTS Policy
Ent(a) == [id |-> a, text |-> a]
G(sub, spk, es, au) == [sub |-> sub, spk |-> spk, entries |-> es, audio |-> au, rate |-> [i \in 1..Len(es) |-> 1]]
World == << G("s", "p", <<Ent("b"), Ent("a")>>, <<"a", "b", "x">>), G("s", "q", <<Ent("c"), Ent("d")>>, <<"d">>),
            G("t", "p", <<Ent("e")>>, <<"e">>) >>
Views == {[sub |-> "s", spk |-> ""], [sub |-> "s", spk |-> "p"], [sub |-> "t", spk |-> ""]}
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Rank == [a |-> 1, b |-> 2, c |-> 3, d |-> 4, e |-> 5]
Sorted(p) == \A i, j \in 1..Len(p) : i < j => Rank[p[i].id] < Rank[p[j].id]
VARIABLES shared, known, good, steps
vars == <<shared, known, good, steps>>
Init == shared = <<>> /\ known = [v \in Views |-> {}] /\ good = TRUE /\ steps = 0
List(v) == \E p \in Perms(Shown(World, v)) :
    /\ Policy = "data" => Sorted(p)
    /\ LET out == IF Policy = "shared" /\ shared # <<>> THEN shared ELSE p
           rows == [i \in 1..Len(out) |-> [id |-> out[i].id, text |-> out[i].text, spk |-> out[i].spk]]
           e == [op |-> "list", view |-> v, rows |-> rows]
       IN /\ (Policy = "shared" => Sorted(p))
          /\ shared' = out
          /\ known' = [known EXCEPT ![v] = @ \cup Learn(e)]
          /\ good' = (good /\ Right(World, e))
Next == steps < 3 /\ steps' = steps + 1 /\ \E v \in Views : List(v)
Spec == Init /\ [][Next]_vars
Seen == good
OneOrder == \A v \in Views : Consistent(known[v])
===============================================================================
