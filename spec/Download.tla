------------------------------ MODULE Download ------------------------------
(* C12.  Fetching, publishing and unpacking a dataset archive by several runs
   that share one directory, under failing transfers, corrupt deliveries, kills
   and restarts.

   arch  "none" | "good" | "bad" (a completely transferred but damaged
         delivery) | "part" (a partial transfer at the archive path)
   data  "none" | "part" | "full" (the unpacked dataset directory)
   A run: check -> (request -> receive -> publish)* -> open -> unpack -> done.
   The disk may refuse an effect (full, failing): the run may treat it as a
   failed transfer or a corrupt archive, or give up.
   The flags in Flaws switch on design errors; with Flaws = {} the invariants
   hold, with each single flaw one of them is violated (checked on every run of
   the check, so the invariants are known to be able to fail).                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Runs,        \* model values or small numbers naming the concurrent runs
          MaxT,        \* transfer failures in total
          MaxC,        \* corrupt deliveries in total
          MaxK,        \* kills in total
          MaxD,        \* effects refused by the disk in total
          InitArch, InitData,
          Flaws,
          Emit1        \* emit one record per finished single-run behaviour

ASSUME Flaws \subseteq {"sharedTmp", "noStage", "unlinkBad", "noRetryT", "noRetryC", "keepShort", "direct", "eager", "swallow"}

VARIABLES arch, data, tmp, pc, tryT, tryC, opened, nT, nC, nK, nD, script, fetches, from
vars == <<arch, data, tmp, pc, tryT, tryC, opened, nT, nC, nK, nD, script, fetches, from>>

Bad(f) == f \in Flaws

Init == /\ arch \in InitArch /\ data \in InitData
        /\ tmp = [p \in Runs |-> "none"]
        /\ pc = [p \in Runs |-> "check"]
        /\ tryT = [p \in Runs |-> 0] /\ tryC = [p \in Runs |-> 0]
        /\ opened = [p \in Runs |-> "none"]
        /\ nT = 0 /\ nC = 0 /\ nK = 0 /\ nD = 0
        /\ script = <<>> /\ fetches = [p \in Runs |-> 0]
        /\ from = [arch |-> arch, data |-> data]

Slot(p) == IF Bad("sharedTmp") THEN CHOOSE q \in Runs : TRUE ELSE p

Check(p) == /\ pc[p] = "check"
            /\ pc' = [pc EXCEPT ![p] = IF ~Bad("eager") /\ data # "none" THEN "ok"
                                       ELSE IF arch = "none" THEN "request"
                                       ELSE IF data # "none" THEN "ok" ELSE "open"]
            /\ UNCHANGED <<arch, data, tmp, tryT, tryC, opened, nT, nC, nK, nD, script, fetches, from>>

\* the connection opens and the first bytes arrive
Request(p) == /\ pc[p] = "request"
              /\ fetches' = [fetches EXCEPT ![p] = @ + 1]
              /\ tmp' = [tmp EXCEPT ![Slot(p)] = "part"]
              /\ arch' = IF Bad("direct") THEN "part" ELSE arch
              /\ pc' = [pc EXCEPT ![p] = "receive"]
              /\ UNCHANGED <<data, tryT, tryC, opened, nT, nC, nK, nD, script, from>>

TransferFails(p) ==
    /\ pc[p] = "receive" /\ nT < MaxT
    /\ nT' = nT + 1
    /\ script' = Append(script, "T")
    /\ tryT' = [tryT EXCEPT ![p] = @ + 1]
    /\ IF Bad("keepShort")
       THEN /\ pc' = [pc EXCEPT ![p] = "publish"] /\ UNCHANGED tmp
       ELSE /\ tmp' = [tmp EXCEPT ![Slot(p)] = "none"]
            /\ pc' = [pc EXCEPT ![p] = IF tryT[p] = 0 /\ ~Bad("noRetryT") THEN "request" ELSE "err"]
    /\ UNCHANGED <<arch, data, tryC, opened, nC, nK, nD, fetches, from>>

Delivered(p, what) ==
    /\ pc[p] = "receive"
    /\ \/ what = "good" /\ UNCHANGED nC
       \/ what = "bad" /\ nC < MaxC /\ nC' = nC + 1
    /\ script' = Append(script, IF what = "good" THEN "G" ELSE "C")
    /\ tmp' = [tmp EXCEPT ![Slot(p)] = IF tmp[Slot(p)] = "none" THEN "none" ELSE what]
    /\ pc' = [pc EXCEPT ![p] = "publish"]
    /\ UNCHANGED <<arch, data, tryT, tryC, opened, nT, nK, nD, fetches, from>>

\* rename of the temporary file; only a shared one can have gone away
Publish(p) ==
    /\ pc[p] = "publish"
    /\ IF tmp[Slot(p)] = "none" /\ ~Bad("direct")
       THEN /\ pc' = [pc EXCEPT ![p] = IF tryT[p] = 0 THEN "request" ELSE "err"]
            /\ tryT' = [tryT EXCEPT ![p] = @ + 1] /\ UNCHANGED <<arch, tmp>>
       ELSE /\ arch' = tmp[Slot(p)]
            /\ tmp' = [tmp EXCEPT ![Slot(p)] = "none"]
            /\ pc' = [pc EXCEPT ![p] = IF data # "none" THEN "ok" ELSE "open"]
            /\ UNCHANGED tryT
    /\ UNCHANGED <<data, tryC, opened, nT, nC, nK, nD, script, fetches, from>>

Open(p) == /\ pc[p] = "open"
           /\ opened' = [opened EXCEPT ![p] = arch]
           /\ pc' = [pc EXCEPT ![p] = "unpack"]
           /\ UNCHANGED <<arch, data, tmp, tryT, tryC, nT, nC, nK, nD, script, fetches, from>>

\* unpacking begins (only visible in place when nothing stages it)
Unpack(p) ==
    /\ pc[p] = "unpack"
    /\ IF opened[p] = "good"
       THEN /\ data' = IF Bad("noStage") /\ data = "none" THEN "part" ELSE data
            /\ pc' = [pc EXCEPT ![p] = "finish"] /\ UNCHANGED <<tryT, tryC, arch>>
       ELSE /\ tryC' = [tryC EXCEPT ![p] = @ + 1]
            /\ tryT' = [tryT EXCEPT ![p] = 0]
            /\ arch' = IF Bad("unlinkBad") /\ tryC[p] = 0 THEN "none" ELSE arch
            /\ data' = IF Bad("noStage") /\ data = "none" THEN "part" ELSE data
            /\ pc' = [pc EXCEPT ![p] = IF tryC[p] = 0 /\ ~Bad("noRetryC") THEN "request" ELSE "err"]
    /\ UNCHANGED <<tmp, opened, nT, nC, nK, nD, script, fetches, from>>

Finish(p) == /\ pc[p] = "finish"
             /\ data' = "full"
             /\ pc' = [pc EXCEPT ![p] = "ok"]
             /\ UNCHANGED <<arch, tmp, tryT, tryC, opened, nT, nC, nK, nD, script, fetches, from>>

\* a kill, and the next run of the same user
Kill(p) == /\ nK < MaxK /\ pc[p] \notin {"ok", "err"}
           /\ nK' = nK + 1
           /\ pc' = [pc EXCEPT ![p] = "check"]
           /\ tryT' = [tryT EXCEPT ![p] = 0] /\ tryC' = [tryC EXCEPT ![p] = 0]
           /\ opened' = [opened EXCEPT ![p] = "none"]
           /\ script' = Append(script, "K")
           /\ UNCHANGED <<arch, data, tmp, nT, nC, nD, fetches, from>>

\* the disk refuses the next effect of p; what it had staged is gone or left behind
DiskFails(p) ==
    /\ nD < MaxD /\ pc[p] \in {"request", "receive", "publish", "open", "unpack", "finish"}
    /\ nD' = nD + 1
    /\ \E t \in {"none", tmp[Slot(p)]} : tmp' = [tmp EXCEPT ![Slot(p)] = t]
    /\ IF Bad("swallow") /\ pc[p] = "finish"
       THEN /\ pc' = [pc EXCEPT ![p] = "ok"] /\ UNCHANGED <<tryT, tryC>>
       ELSE \/ pc' = [pc EXCEPT ![p] = "err"] /\ UNCHANGED <<tryT, tryC>>
            \/ /\ pc[p] \in {"request", "receive", "publish"} /\ tryT[p] = 0
               /\ tryT' = [tryT EXCEPT ![p] = @ + 1] /\ UNCHANGED tryC
               /\ pc' = [pc EXCEPT ![p] = "request"]
            \/ /\ pc[p] \in {"open", "unpack", "finish"} /\ tryC[p] = 0
               /\ tryC' = [tryC EXCEPT ![p] = @ + 1]
               /\ tryT' = [tryT EXCEPT ![p] = 0]
               /\ pc' = [pc EXCEPT ![p] = "request"]
    /\ UNCHANGED <<arch, data, opened, nT, nC, nK, script, fetches, from>>

Next == \E p \in Runs :
          \/ Check(p) \/ Request(p) \/ TransferFails(p) \/ Delivered(p, "good") \/ Delivered(p, "bad")
          \/ Publish(p) \/ Open(p) \/ Unpack(p) \/ Finish(p) \/ Kill(p) \/ DiskFails(p)
Spec == Init /\ [][Next]_vars

\* ---- C12 ---------------------------------------------------------------------
NeverPartial == arch # "part"
SuccessIsComplete == \A p \in Runs : pc[p] = "ok" => data = "full"
BadStart == IF from.arch = "bad" THEN 1 ELSE 0
\* one failed transfer and one corrupt archive are survived together
Survives == (nD = 0 /\ nT <= 1 /\ nC + BadStart <= 1) => \A p \in Runs : pc[p] # "err"
PresentNotFetched == /\ (from.data = "full" => \A p \in Runs : fetches[p] = 0)
                     /\ (from.arch = "good" /\ nK = 0 /\ nD = 0 => \A p \in Runs : fetches[p] = 0)
                     /\ \A p \in Runs : fetches[p] <= nT + nC + BadStart + nK + 2 * nD + 1

\* what any implementation of C12 must do with the script of one run
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Must(a, d, s) ==
    IF d = "full" \/ a = "good" THEN "ok"
    ELSE IF Count(s, "T") <= 1 /\ Count(s, "C") + (IF a = "bad" THEN 1 ELSE 0) <= 1 /\ Count(s, "G") > 0 THEN "ok"
    ELSE IF Count(s, "G") = 0 THEN "err" ELSE "any"
Agrees == \A p \in Runs : (Cardinality(Runs) = 1 /\ nK = 0 /\ nD = 0 /\ pc[p] \in {"ok", "err"}) =>
              LET m == Must(from.arch, from.data, script) IN m = "any" \/ m = pc[p]
Emit == Emit1 =>
        \A p \in Runs : pc[p] \in {"ok", "err"} =>
            PrintT("@@" \o ToJson([arch |-> from.arch, data |-> from.data, script |-> script, outcome |-> pc[p],
                                   must |-> Must(from.arch, from.data, script)]))
=============================================================================
