---------------------------- MODULE Directivity ----------------------------
(***************************************************************************)
(* Patterns, orientations and which device uses which orientation.          *)
(*                                                                          *)
(* Gains are a + (1 - a) cos; a is kept in quarters.  cos is an integer dot  *)
(* product over the product of two lengths; only its sign and square are     *)
(* integers, so exact statements are made with those.                        *)
(***************************************************************************)
EXTENDS Ism, TLC

Patterns ==
  [omni |-> 4, omnidirectional |-> 4, subcardioid |-> 3, subcard |-> 3,
   cardioid |-> 2, card |-> 2, hypercardioid |-> 1, hypcard |-> 1,
   bidir |-> 0, bidirectional |-> 0, figure8 |-> 0] @@ ("figure-8" :> 0)
HalfOmni == {"homni", "halfomni", "half-omni"}
Known(p) == p \in DOMAIN Patterns \/ p \in HalfOmni
IsOmni(p) == p \in DOMAIN Patterns /\ Patterns[p] = 4
\* canonical: <<kind, a in quarters>>
Canon(p) == IF p \in HalfOmni THEN <<"half", 0>> ELSE <<"first", Patterns[p]>>

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* propagation direction seen by the device: leaving the image for a source,
\* arriving from the image (pointing back at it) for a microphone
Seen(side, v) == IF side = "src" THEN v ELSE [i \in 1..Len(v) |-> -v[i]]
\* signed squared cosine as a fraction: <<sign*dot^2, |v|^2 |o|^2>>
Cos2(v, o) == <<Sgn(Dot(v, o)) * Dot(v, o) * Dot(v, o), D2(v) * D2(o)>>
\* gain when |cos| is 0 or 1 (exact), in quarters; 99 = not exact
Exact(p, v, o) ==
  LET c == Cos2(v, o)
      s == Sgn(c[1]) IN
  IF p[1] = "half" THEN (IF c[1] > 0 THEN 4 ELSE 0)
  ELSE IF c[1] = 0 THEN p[2]
  ELSE IF Abs(c[1]) = c[2] THEN p[2] + (4 - p[2]) * s
  ELSE 99

\* --- orientation resolution -------------------------------------------------
\* From the shape of the orientation given, per device the row used and how to
\* read it; row 0 = the whole (one-row) value.  "either": one row for several
\* devices, which may be refused but, if accepted, is used for all.
Row(kind, k) == [kind |-> kind, row |-> k]
All(n, kind) == [ok |-> "ok", rows |-> [d \in 1..n |-> Row(kind, 0)]]
Each(n, kind) == [ok |-> "ok", rows |-> [d \in 1..n |-> Row(kind, d)]]
Refuse == [ok |-> "reject", rows |-> <<>>]
Resolve(dim, n, sh) ==
  LET r == Len(sh)
      per(kind) == IF sh[1] = n THEN Each(n, kind)
                   ELSE IF sh[1] = 1 THEN [All(n, kind) EXCEPT !.ok = "either"] ELSE Refuse
  IN
  IF dim = 2 THEN
    IF r = 0 THEN All(n, "angle")
    ELSE IF r = 1 THEN
      (IF sh[1] = 1 THEN All(n, "angle")
       ELSE IF sh[1] = 2 THEN All(n, "vec")
       ELSE IF sh[1] = n THEN Each(n, "angle") ELSE Refuse)
    ELSE IF r = 2 THEN
      (IF sh[2] = 1 THEN per("angle") ELSE IF sh[2] = 2 THEN per("vec") ELSE Refuse)
    ELSE Refuse
  ELSE
    IF r = 1 THEN (IF sh[1] = 3 THEN All(n, "vec") ELSE IF sh[1] = 2 THEN All(n, "azel") ELSE Refuse)
    ELSE IF r = 2 THEN (IF sh[2] = 3 THEN per("vec") ELSE IF sh[2] = 2 THEN per("azel") ELSE Refuse)
    ELSE Refuse

\* --- which orientation a side uses -------------------------------------------
\* arg: "given" or "none" for this side; has: the scene has one
Used(arg, has) == IF arg # "none" THEN "arg" ELSE IF has THEN "scene" ELSE "none"
\* a side with pattern p and orientation source u
\* something given per side comes in pairs: <<source, microphone>>
PairOk(k) == k = 2
SideOk(p, u) == Known(p) /\ (IsOmni(p) \/ u # "none")
=============================================================================
