------------------------------- MODULE Device -------------------------------
(* C24.  Which device and precision a request resolves to.

   ask     "none" | "auto" | "cpu" | "cuda" | "cuda:1" | "mps" | "mps:0" | "object" (a device
           object, taken as it is) | "unknown"
   prefer  sequence over {"cuda", "mps", "cpu"}
   cuda, mps   availability
   args    sequence of arguments: [t |-> FALSE] or [t |-> TRUE, dev, dt]
   dtype   "none" or the explicit precision                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Full, EmitOn
VARIABLES q, done

Avail(e, b) == b = "cpu" \/ (b = "cuda" /\ e.cuda) \/ (b = "mps" /\ e.mps)
RECURSIVE FirstAvail(_, _)
FirstAvail(e, p) == IF p = <<>> THEN "cpu" ELSE IF Avail(e, p[1]) THEN p[1] ELSE FirstAvail(e, SubSeq(p, 2, Len(p)))
Backend(a) == CASE a \in {"cuda", "cuda:1"} -> "cuda" [] a \in {"mps", "mps:0"} -> "mps" [] OTHER -> "cpu"

\* a request without tensors: [dev, warn, err]
Named(e) ==
    CASE e.ask = "unknown" -> [dev |-> "", warn |-> FALSE, err |-> TRUE]
      [] e.ask = "object" -> [dev |-> "object", warn |-> FALSE, err |-> FALSE]
      [] e.ask = "none" -> [dev |-> "cpu", warn |-> FALSE, err |-> FALSE]
      [] e.ask = "auto" -> [dev |-> FirstAvail(e, e.prefer), warn |-> FALSE, err |-> FALSE]
      [] Avail(e, Backend(e.ask)) -> [dev |-> e.ask, warn |-> FALSE, err |-> FALSE]
      [] OTHER -> [dev |-> "cpu", warn |-> TRUE, err |-> FALSE]
Tensors(e) == SelectSeq(e.args, LAMBDA a : a.t)
Resolved(e) ==
    LET T == Tensors(e)
        d == IF e.ask \in {"none", "auto"} /\ T # <<>> THEN [dev |-> T[1].dev, warn |-> FALSE, err |-> FALSE] ELSE Named(e)
    IN d @@ [dt |-> IF e.dtype # "none" THEN e.dtype ELSE IF T # <<>> THEN T[1].dt ELSE "float32"]

Asks == {"none", "auto", "cpu", "cuda", "cuda:1", "mps", "mps:0", "object", "unknown"}
Prefs == UNION {{p \in [1..n -> {"cuda", "mps", "cpu"}] : \A i, j \in 1..n : i # j => p[i] # p[j]} : n \in 0..3}
Arg == {[t |-> FALSE, dev |-> "", dt |-> ""]} \cup [t : {TRUE}, dev : {"cpu", "meta"}, dt : {"float32", "float64", "float16", "int64"}]
Small == {a \in Arg : a.dt \in {"", "float64", "int64"}}
ArgSeqs == UNION {[1..n -> IF n = 1 \/ Full THEN Arg ELSE Small] : n \in 0..2}
           \cup {<<[t |-> FALSE, dev |-> "", dt |-> ""], [t |-> TRUE, dev |-> "meta", dt |-> "float16"], [t |-> TRUE, dev |-> "cpu", dt |-> "float64"]>>}
Env == [ask : Asks, prefer : Prefs, cuda : BOOLEAN, mps : BOOLEAN]
Init == q \in [e : Env, args : {<<>>}, dtype : {"none"}] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ q' \in [e : {q.e}, args : ArgSeqs, dtype : {"none", "float32", "float64"}]
Spec == Init /\ [][Next]_<<q, done>>
R == Resolved(q.e @@ [args |-> q.args, dtype |-> q.dtype])
\* an explicit request wins whatever the tensors are; asking for nothing never needs a backend
ExplicitWins == q.e.ask \notin {"none", "auto"} => [R EXCEPT !.dt = ""] = (Named(q.e) @@ [dt |-> ""])
DtypeWins == q.dtype # "none" => R.dt = q.dtype
NeverUnavailable == R.dev \in {"cuda", "cuda:1"} => q.e.cuda
AutoFollowsOrder == q.e.ask = "auto" /\ q.args = <<>> =>
    \A i \in 1..Len(q.e.prefer) : (Avail(q.e, q.e.prefer[i]) /\ \A j \in 1..(i - 1) : ~Avail(q.e, q.e.prefer[j])) => R.dev = q.e.prefer[i]
WarnOnlyOnFallback == R.warn => R.dev = "cpu" /\ q.e.ask \in {"cuda", "cuda:1", "mps", "mps:0"}
Emit == EmitOn /\ done => PrintT("@@" \o ToJson([e |-> q.e, args |-> q.args, dtype |-> q.dtype, r |-> R]))
=============================================================================
