-------------------------- MODULE DirectivityEval --------------------------
(* Oracle: per case whether it must be accepted, and per side the pattern and *)
(* the orientation row of every device.                                        *)
EXTENDS Directivity, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
SideOf(c, s, n) ==
  LET u == Used(c[s].arg, c[s].has)
      p == c[s].pattern
      sh == IF u = "arg" THEN c[s].argshape ELSE c[s].shape
      r == IF u = "none" THEN Refuse ELSE Resolve(c.dim, n, sh)
  IN IF ~Known(p) THEN [ok |-> "reject"]
     ELSE IF IsOmni(p) THEN
       \* an unusable orientation on an omnidirectional device may be refused
       [ok |-> IF u = "none" \/ r.ok = "ok" THEN "ok" ELSE "either",
        pat |-> Canon(p), u |-> u, rows |-> <<>>]
     ELSE IF ~SideOk(p, u) \/ r.ok = "reject" THEN [ok |-> "reject"]
     ELSE [ok |-> r.ok, pat |-> Canon(p), u |-> u, rows |-> r.rows]
Emit(c) ==
  LET a == SideOf(c, "src", c.nsrc)
      b == SideOf(c, "mic", c.nmic)
      ok == IF a.ok = "reject" \/ b.ok = "reject" \/ ~PairOk(c.patlen) \/ ~PairOk(c.orilen) THEN "reject"
            ELSE IF a.ok = "either" \/ b.ok = "either" THEN "either" ELSE "ok"
  IN [id |-> c.id, ok |-> ok, src |-> a, mic |-> b]
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ PrintT("@@" \o ToJson(Emit(Cases[i + 1])))
Spec == Init /\ [][Next]_i
=============================================================================
