------------------------------- MODULE MCLogging -------------------------------
EXTENDS Logging, TLC
CONSTANTS Targets, Levels, Depth, Flaw
VARIABLES cfg, want, k
vars == <<cfg, want, k>>
Init == cfg = Fresh /\ want = [n \in Nodes |-> <<>>] /\ k = 0
Good(n, l, p) == /\ want' = [want EXCEPT ![n] = <<l, k', p>>]
    /\ cfg' = (IF Flaw = "first" /\ cfg[n].handler
               THEN [cfg EXCEPT ![n].level = l, ![n].prop = p]
               ELSE Setup(cfg, n, l, k', p))
Bad(n, p) == want' = want /\ cfg' = (IF Flaw = "eager" THEN [cfg EXCEPT ![n].prop = p] ELSE cfg)
Guest(n, l) == CanAttach(cfg, n) /\ cfg' = Attach(cfg, n, l) /\ want' = want
Next == k < Depth /\ k' = k + 1 /\ \E n \in Targets, p \in BOOLEAN : (\E l \in Levels : Good(n, l, p) \/ Guest(n, l)) \/ Bad(n, p)
Spec == Init /\ [][Next]_vars
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Once == \A n \in Targets : want[n] # <<>> => \A l \in {5, 10, 20, 30, 40} :
    Count(Emitted(cfg, n, l), want[n][2]) = (IF l >= want[n][1] THEN 1 ELSE 0)
Passes == \A n \in Targets : want[n] # <<>> => \A l \in {5, 10, 20, 30, 40} : l >= want[n][1] =>
    (Count(Emitted(cfg, n, l), 0) = 1) = (LET F[m \in Nodes] == IF m = "root" THEN TRUE ELSE cfg[m].prop /\ F[Parent(m)] IN F[n])
Kept == \A n \in Targets : want[n] # <<>> => cfg[n].prop = want[n][3]
\* a setup neither removes nor changes what the program attached
GuestKept == [][\A n \in Targets : cfg[n].guest # -1 => cfg'[n].guest = cfg[n].guest]_vars
Guests == \A n \in Targets : cfg[n].guest # -1 => \A l \in {5, 10, 20, 30, 40} :
    (Count(Emitted(cfg, n, l), -2) >= 1) = (l >= Effective(cfg, n) /\ (l >= cfg[n].guest \/ (cfg[n].prop /\ n = "torchrir.a" /\ cfg["torchrir"].guest # -1 /\ l >= cfg["torchrir"].guest)))
Silent == \A n \in Targets : \A l \in {5, 10, 20, 30, 40} : LET s == Emitted(cfg, n, l) IN \A x \in 1..k : Count(s, x) <= 1
===============================================================================
