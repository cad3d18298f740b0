------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* A process that simulates and convolves, with caches inside and a caller   *)
(* that overwrites results and reseeds the global generators between calls.   *)
(* Ops are 1..NOps; ops with the same Key share a cached table.  The result    *)
(* of a call is the table it used plus its own op number, so a result is right *)
(* iff the table is the one of its own key and was never written to.           *)
(* Alias = a call returns memory that the cache keeps (a defect);              *)
(* BadKey = the cache key forgets a distinction (a defect);                    *)
(* Draws = a call consumes the global generator (a defect).                    *)
(* With all three FALSE the invariants hold; each one TRUE breaks them.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NOps, MaxLen, Alias, BadKey, Draws, EmitMod
VARIABLES hist, cache, results, rng, callerRng
vars == <<hist, cache, results, rng, callerRng>>
Ops == 1..NOps
\* two ops per table; tables 2k-1 and 2k differ only by precision
Table(k) == (k + 1) \div 2
Key(k) == IF BadKey THEN (Table(k) + 1) \div 2 ELSE Table(k)
Good(k) == <<Table(k), k>>
Empty == 0
Dirty == 1000
Init == hist = <<>> /\ cache = [i \in 1..NOps |-> Empty] /\ results = <<>> /\ rng = 0 /\ callerRng = 0
Used(k) == IF cache[Key(k)] = Empty THEN Table(k) ELSE cache[Key(k)]
Call(k) == /\ cache' = [cache EXCEPT ![Key(k)] = Used(k)]
           /\ results' = Append(results, [op |-> k, atReturn |-> <<Used(k), k>>, live |-> TRUE])
           /\ rng' = IF Draws THEN rng + 1 ELSE rng
           /\ hist' = Append(hist, [a |-> "call", k |-> k])
           /\ UNCHANGED callerRng
Overwrite(j) == /\ results[j].live
                /\ results' = [results EXCEPT ![j].live = FALSE]
                /\ cache' = IF Alias THEN [cache EXCEPT ![Key(results[j].op)] = Dirty] ELSE cache
                /\ hist' = Append(hist, [a |-> "overwrite", k |-> j])
                /\ UNCHANGED <<rng, callerRng>>
Reseed == /\ rng' = rng + 10 /\ callerRng' = callerRng + 10
          /\ hist' = Append(hist, [a |-> "reseed", k |-> 0])
          /\ UNCHANGED <<cache, results>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E k \in Ops : Call(k)
           \/ \E j \in 1..Len(results) : Overwrite(j)
           \/ Reseed
Spec == Init /\ [][Next]_vars
\* every call returns what it would return in a fresh process
Pure == \A j \in 1..Len(results) : results[j].atReturn = Good(results[j].op)
\* only the caller moves the global generators
RngUntouched == rng = callerRng
Num(h) == IF h.a = "call" THEN h.k ELSE IF h.a = "reseed" THEN 50 ELSE 60 + h.k
RECURSIVE HashOf(_)
HashOf(s) == IF s = <<>> THEN 7 ELSE (HashOf(Tail(s)) * 31 + Num(Head(s)) * 17 + 3) % 10007
Emit == (Len(hist) = MaxLen /\ HashOf(hist) % EmitMod = 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
