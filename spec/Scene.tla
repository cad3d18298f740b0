-------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* Which rooms, devices and scenes are well-formed.  Numbers are classes:    *)
(* "pos" (an ordinary positive value), "zero", "neg", "nan", "inf", "one",    *)
(* "above1", "mid" (strictly between 0 and 1).  Shapes are sequences.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Positive(v) == v \in {"pos", "one", "mid", "above1"}
Finite(v) == v \notin {"nan", "inf", "ninf"}
InUnit(v) == v \in {"zero", "one", "mid"}

\* room: size shape and one odd element; fs, c; beta count and odd element; t60
RoomOk(r) ==
  /\ Len(r.shape) = 1 /\ r.shape[1] \in {2, 3}
  /\ Positive(r.odd) /\ Finite(r.odd)
  /\ Positive(r.fs) /\ Positive(r.c)
  /\ ~(r.nbeta > 0 /\ r.t60 # "unset")
  /\ r.t60 # "unset" => Positive(r.t60)
  /\ r.nbeta > 0 => (r.nbeta = 2 * r.shape[1] /\ InUnit(r.betaodd))

\* positions: (n, dim) or one point (dim)
Count(sh) == IF Len(sh) = 1 THEN 1 ELSE sh[1]
Dim(sh) == sh[Len(sh)]
PosOk(sh) == Len(sh) \in {1, 2} /\ Dim(sh) \in {2, 3}
OriOk(dim, n, sh) ==
  IF dim = 2 THEN \/ sh = <<>>
                  \/ Len(sh) = 1 /\ sh[1] \in {1, 2, n}
                  \/ Len(sh) = 2 /\ sh[1] = n /\ sh[2] \in {1, 2}
  ELSE \/ Len(sh) = 1 /\ sh[1] \in {2, 3}
       \/ Len(sh) = 2 /\ sh[1] = n /\ sh[2] \in {2, 3}
EntityOk(e) ==
  /\ PosOk(e.shape) /\ Finite(e.odd)
  /\ e.hasori => OriOk(Dim(e.shape), Count(e.shape), e.ori) /\ Finite(e.oriodd)

\* trajectories: (T, n, dim), or (T, dim) for one device
TrajOk(sh, n, dim) == \/ Len(sh) = 3 /\ sh[2] = n /\ sh[3] = dim
                      \/ Len(sh) = 2 /\ n = 1 /\ sh[2] = dim
\* scene kinds: "static", "dynamic", "old" (deprecated; with or without trajectories)
SceneOk(s) ==
  /\ s.sdim = s.rdim /\ s.mdim = s.rdim
  /\ CASE s.kind = "static" -> TRUE
       [] s.kind = "dynamic" -> s.hs /\ s.hm
       [] s.kind = "old" -> s.hs = s.hm
  /\ (s.kind # "static" /\ s.hs /\ s.hm) =>
                          /\ TrajOk(s.st, s.nsrc, s.rdim) /\ TrajOk(s.mt, s.nmic, s.rdim)
                          /\ s.st[1] = s.mt[1] /\ Finite(s.sodd) /\ Finite(s.modd)
Dynamic(s) == s.kind = "dynamic" \/ (s.kind = "old" /\ s.hs)
=============================================================================
