------------------------------ MODULE Threads ------------------------------
(* C29.  Several threads, each inside one call of the library.

   A call looks its table up in a cache the process shares; if it is missing it
   makes one and publishes it; then it works (reading the table, writing
   intermediate values) and returns.  A call's result is right iff the table it
   worked with is whole and its own and the intermediate values are its own.

   Flaws: "early" publishes the table before filling it; "scratch" keeps the
   intermediate values where the other threads write theirs; "seed" sets the
   process-wide generator and puts it back; "current" notes the parameters of
   the call being served in one place for all.  With "none", any schedule gives
   every call the result it has alone.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NThreads, Tables, Flaw, MaxSwitches, EmitOn
VARIABLES op, pc, cache, shared, own, gen, saved, res, sched
vars == <<op, pc, cache, shared, own, gen, saved, res, sched>>
T == 1..NThreads
Empty == 0
Half == 99
\* op[t] is the table the call of thread t needs; t itself stands for its data
Init == /\ op \in [T -> 1..Tables] /\ pc = [t \in T |-> "enter"]
        /\ cache = [k \in 1..Tables |-> Empty] /\ shared = 0 /\ own = [t \in T |-> 0]
        /\ gen = 7 /\ saved = [t \in T |-> 0] /\ res = [t \in T |-> <<>>] /\ sched = <<>>
Switches(s) == Cardinality({i \in 2..Len(s) : s[i] # s[i - 1]})
Go(t, to) == pc' = [pc EXCEPT ![t] = to] /\ UNCHANGED op
            /\ sched' = (IF MaxSwitches = 0 THEN <<>> ELSE Append(sched, t))      \* 0: any number, not recorded
            /\ (MaxSwitches > 0 => Switches(sched') <= MaxSwitches)
Enter(t) == /\ pc[t] = "enter" /\ Go(t, "look")
            /\ shared' = IF Flaw = "current" THEN op[t] ELSE shared
            /\ IF Flaw = "seed" THEN saved' = [saved EXCEPT ![t] = gen] /\ gen' = 100 + t ELSE UNCHANGED <<saved, gen>>
            /\ UNCHANGED <<cache, own, res>>
Key(t) == IF Flaw = "current" THEN shared ELSE op[t]
Look(t) == /\ pc[t] = "look" /\ Go(t, IF cache[Key(t)] = Empty THEN "make" ELSE "work")
           /\ UNCHANGED <<cache, shared, own, gen, saved, res>>
Make(t) == /\ pc[t] = "make" /\ Go(t, "publish")
           /\ cache' = IF Flaw = "early" THEN [cache EXCEPT ![op[t]] = Half] ELSE cache
           /\ UNCHANGED <<shared, own, gen, saved, res>>
Publish(t) == /\ pc[t] = "publish" /\ Go(t, "work") /\ cache' = [cache EXCEPT ![op[t]] = op[t]]
              /\ UNCHANGED <<shared, own, gen, saved, res>>
\* what the call works with: its table as it is now, and its intermediate values
Work(t) == /\ pc[t] = "work" /\ Go(t, "leave")
           /\ own' = [own EXCEPT ![t] = IF Flaw = "current" THEN cache[shared] ELSE cache[op[t]]]
           /\ shared' = IF Flaw = "scratch" THEN t ELSE shared
           /\ UNCHANGED <<cache, gen, saved, res>>
Leave(t) == /\ pc[t] = "leave" /\ Go(t, "done")
            /\ res' = [res EXCEPT ![t] = <<own[t], IF Flaw = "scratch" THEN shared ELSE t, IF Flaw = "seed" THEN gen ELSE 100 + t>>]
            /\ gen' = IF Flaw = "seed" THEN saved[t] ELSE gen
            /\ UNCHANGED <<cache, shared, own, saved>>
Next == \E t \in T : Enter(t) \/ Look(t) \/ Make(t) \/ Publish(t) \/ Work(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars
AllDone == \A t \in T : pc[t] = "done"
AsAlone == \A t \in T : pc[t] = "done" => res[t] = <<op[t], t, 100 + t>>
GeneratorKept == AllDone => gen = 7
TablesWhole == \A k \in 1..Tables : cache[k] \in {Empty, k}
\* a schedule as runs: [thread, steps]
RECURSIVE Runs(_)
Runs(s) == IF s = <<>> THEN <<>>
           ELSE LET n == CHOOSE n \in 1..Len(s) : (\A i \in 1..n : s[i] = s[1]) /\ (n = Len(s) \/ s[n + 1] # s[1])
                IN <<<<s[1], n>>>> \o Runs(SubSeq(s, n + 1, Len(s)))
Emit == (EmitOn /\ AllDone /\ sched[1] = 1) => PrintT("@@" \o ToJson([runs |-> Runs(sched), op |-> op]))
=============================================================================
