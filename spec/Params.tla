------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* How a simulation call resolves its parameters: a call passes through       *)
(* merge (argument over configuration over default), validate, run.           *)
(* Values are small integers; NoVal means "not given".  Durations are in half  *)
(* samples so that ceil(duration * fs) is exact.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS EmitMod
NoVal == 99

Entries == {"rir", "dyn", "sim", "simdyn"}
IsSim(e) == e \in {"sim", "simdyn"}

Orders == {NoVal, -1, 0, 2}
CfgOrders == {NoVal, -1, 1, 2}
TmaxHalf == {NoVal, -3, 0, 63, 64}          \* argument duration, half samples
CfgTmax == {NoVal, 0, 45, 64}
NSamples == {NoVal, -2, 0, 40}
Dirs == {"default", "none", "cardioid"}     \* "none" = explicitly None
CfgDirs == {"unset", "bidir"}
Devs == {"unset", "cpu", "bogus", "cuda"}

VARIABLES call, stage, res
vars == <<call, stage, res>>

Init ==
  /\ stage = "merge" /\ res = <<>>
  /\ call \in [entry : Entries, order : Orders, corder : CfgOrders, tmax : TmaxHalf, ctmax : CfgTmax,
               ns : NSamples, dir : Dirs, cdir : CfgDirs, dev : {"unset"}, cdev : {"unset"}, hascfg : BOOLEAN]
          \cup [entry : Entries, order : {2}, corder : {NoVal}, tmax : {64}, ctmax : {NoVal}, ns : {NoVal},
                dir : {"default"}, cdir : {"unset"}, dev : Devs, cdev : Devs, hascfg : {TRUE}]
  \* without a configuration object there are no configuration values
  /\ ~call.hascfg => (call.corder = NoVal /\ call.ctmax = NoVal /\ call.cdir = "unset")
  \* the simulator always has an order
  /\ IsSim(call.entry) => call.order # NoVal

First(a, b, none) == IF a # none THEN a ELSE b
Merged == [order |-> First(call.order, call.corder, NoVal),
           tmax |-> First(call.tmax, call.ctmax, NoVal),
           ns |-> call.ns,
           dir |-> IF call.dir = "default" THEN "omni"
                   ELSE IF call.dir = "cardioid" THEN "cardioid"
                   ELSE IF call.cdir = "unset" THEN "omni" ELSE call.cdir,
           dev |-> IF call.dev # "unset" THEN call.dev ELSE IF call.cdev # "unset" THEN call.cdev ELSE "cpu"]

CfgBad == (call.corder # NoVal /\ call.corder < 0) \/ (call.ctmax # NoVal /\ call.ctmax <= 0)
SimBad == IsSim(call.entry) /\
   \/ call.order < 0
   \/ (call.tmax = NoVal /\ call.ns = NoVal)
   \/ (call.tmax # NoVal /\ call.tmax <= 0)
   \/ (call.ns # NoVal /\ call.ns <= 0)
   \/ (call.corder # NoVal /\ call.corder # call.order)
   \/ (call.tmax # NoVal /\ call.ctmax # NoVal /\ call.ctmax # call.tmax)
Samples == IF Merged.ns # NoVal THEN Merged.ns
           ELSE IF Merged.tmax = NoVal THEN NoVal ELSE (Merged.tmax + 1) \div 2
RunBad == Merged.order = NoVal \/ Merged.order < 0 \/ Samples = NoVal \/ Samples <= 0 \/ Merged.dev = "bogus"

\* A useless but harmless argument (a non-positive duration next to an explicit
\* sample count) may be refused or ignored.
Idle == ~IsSim(call.entry) /\ call.ns # NoVal /\ call.tmax # NoVal /\ call.tmax <= 0

Merge == stage = "merge" /\ stage' = "validate" /\ res' = Merged /\ UNCHANGED call
Reject == stage = "validate" /\ (CfgBad \/ SimBad \/ RunBad) /\ stage' = "rejected" /\ UNCHANGED <<call, res>>
Run == /\ stage = "validate" /\ ~(CfgBad \/ SimBad \/ RunBad)
       /\ stage' = "done"
       /\ res' = [order |-> res.order, n |-> Samples, dir |-> res.dir, warns |-> res.dev = "cuda"]
       /\ UNCHANGED call
Next == Merge \/ Reject \/ Run
Spec == Init /\ [][Next]_vars

\* --- what a user relies on -------------------------------------------------
Final == stage \in {"done", "rejected"}
ExplicitOrder == (stage = "done" /\ call.order # NoVal) => res.order = call.order
ConfigOrder == (stage = "done" /\ call.order = NoVal) => res.order = call.corder
CountWins == (stage = "done" /\ call.ns # NoVal) => res.n = call.ns
Duration == (stage = "done" /\ call.ns = NoVal) =>
   LET d == IF call.tmax # NoVal THEN call.tmax ELSE call.ctmax IN 2 * res.n \in {d, d + 1}
ExplicitDir == (stage = "done" /\ call.dir = "cardioid") => res.dir = "cardioid"
ExplicitDev == (stage = "done" /\ call.dev = "cpu") => ~res.warns
NeverNegative == stage = "done" => res.n > 0 /\ res.order >= 0
NoContradiction == (stage = "done" /\ IsSim(call.entry)) =>
   /\ call.corder \in {NoVal, call.order}
   /\ (call.tmax = NoVal \/ call.ctmax \in {NoVal, call.tmax})

Hash == (call.order * 7 + call.corder * 11 + call.tmax * 13 + call.ctmax * 17 + call.ns * 19
         + Len(call.dir) * 23 + Len(call.entry) * 29 + Len(call.cdir) * 31 + 4000) % EmitMod
Emit == (Final /\ (Hash = 0 \/ call.dev # "unset" \/ call.cdev # "unset")) =>
   PrintT("@@" \o ToJson([call |-> call, stage |-> stage, res |-> res, idle |-> Idle]))
=============================================================================
