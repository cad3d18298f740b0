-------------------------------- MODULE Corpus --------------------------------
(* C13.  What a dataset handle shows of a corpus on disk.

   A corpus is a sequence of groups
     [sub, spk, entries : Seq([id, text]), audio : Seq(id), rate : Seq(rate per entry)]
   (one transcript file each).  A handle shows one subset, and one speaker of
   it or all ("" = all).  What it shows is a set; the order is free but must be
   the same for every handle on the same data: `known` collects, per view, the
   positions seen so far, as pairs <<index, id>>.                             *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
InView(g, v) == g.sub = v.sub /\ v.spk \in {"", g.spk}
Shown(world, v) ==
    UNION {{[id |-> g.entries[i].id, text |-> g.entries[i].text, spk |-> g.spk, rate |-> g.rate[i],
               snd |-> <<g.sub, g.entries[i].id>>] :
              i \in {i \in 1..Len(g.entries) : g.entries[i].id \in Range(g.audio)}} :
           g \in {g \in Range(world) : InView(g, v)}}
Size(world, v) == Cardinality(Shown(world, v))
Speakers(world, v) == IF v.spk # "" THEN {v.spk} ELSE {g.spk : g \in {g \in Range(world) : InView(g, v)}}

\* an index as Python counts it, or -1
Pos(world, v, i) == IF i >= 0 /\ i < Size(world, v) THEN i
                    ELSE IF i < 0 /\ i + Size(world, v) >= 0 THEN i + Size(world, v) ELSE -1
Consistent(k) == \A p, q \in k : (p[1] = q[1]) <=> (p[2] = q[2])
Listed(ids) == {<<i - 1, ids[i]>> : i \in 1..Len(ids)}

\* what an observation adds to what is known of its view, and whether it is right
Learn(e) == CASE e.op \in {"list", "iter"} -> Listed([i \in 1..Len(e.rows) |-> e.rows[i].id])
              [] e.op = "get" /\ e.ok -> {<<IF e.i < 0 THEN e.i + e.n ELSE e.i, e.row.id>>}
              [] OTHER -> {}
RowOk(world, v, r, full) ==
    \E x \in Shown(world, v) : /\ r.id = x.id /\ r.text = x.text /\ r.spk = x.spk
                               /\ full => r.audio = x.snd /\ r.rate = x.rate
Right(world, e) ==
    LET v == e.view IN
    CASE e.op = "len" -> e.n = Size(world, v)
      [] e.op \in {"list", "iter"} -> /\ Len(e.rows) = Size(world, v)
                                      /\ {e.rows[i].id : i \in 1..Len(e.rows)} = {x.id : x \in Shown(world, v)}
                                      /\ \A i \in 1..Len(e.rows) : RowOk(world, v, e.rows[i], e.op = "iter")
      [] e.op = "get" -> IF Pos(world, v, e.i) = -1 THEN ~e.ok
                         ELSE e.ok /\ RowOk(world, v, e.row, TRUE)
      [] e.op = "load" -> LET X == {x \in Shown(world, v) : x.id = e.id} IN
                          X # {} => e.ok /\ \A x \in X : e.audio = x.snd /\ e.rate = x.rate
      [] e.op = "badindex" -> ~e.ok
      [] e.op = "speakers" -> /\ Range(e.names) = Speakers(world, v)
                              /\ Len(e.names) = Cardinality(Range(e.names)) /\ e.sorted
      [] e.op = "open" -> e.ok <=> (\E g \in Range(world) : InView(g, v))
===============================================================================
