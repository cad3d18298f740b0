-------------------------------- MODULE Logging --------------------------------
(* C20.  Loggers form a tree; a setup configures one of them.  What a logger
   emits is the sequence of handlers that write, nearest first, each known by the
   setup whose format it uses (0 is a handler at the root that takes all, -2 one
   that the program attached to a logger already set up; setups leave it alone). *)
EXTENDS Integers, Sequences, FiniteSets

Nodes == {"root", "torchrir", "torchrir.a", "torchrir.a.b", "torchrirx", "other"}
Parent(n) == CASE n = "torchrir.a.b" -> "torchrir.a" [] n = "torchrir.a" -> "torchrir" [] OTHER -> "root"
\* a configuration: level (0 means: as the parent), the setup that made it, whether it propagates
Fresh == [n \in Nodes |-> [level |-> IF n = "root" THEN 30 ELSE 0, by |-> 0, handler |-> n = "root", hlevel |-> 0, prop |-> TRUE, guest |-> -1]]
Setup(cfg, n, level, by, prop) == [cfg EXCEPT ![n] = [level |-> level, by |-> by, handler |-> TRUE, hlevel |-> level, prop |-> prop, guest |-> @.guest]]
CanAttach(cfg, n) == n # "root" /\ cfg[n].handler /\ cfg[n].guest = -1
Attach(cfg, n, level) == IF CanAttach(cfg, n) THEN [cfg EXCEPT ![n].guest = level] ELSE cfg
RECURSIVE Effective(_, _)
Effective(cfg, n) == IF cfg[n].level # 0 \/ n = "root" THEN cfg[n].level ELSE Effective(cfg, Parent(n))
RECURSIVE Visit(_, _, _)
Visit(cfg, n, l) == (IF cfg[n].handler /\ l >= cfg[n].hlevel THEN <<cfg[n].by>> ELSE <<>>) \o
                    (IF cfg[n].guest >= 0 /\ l >= cfg[n].guest THEN <<-2>> ELSE <<>>) \o
                    (IF n = "root" \/ ~cfg[n].prop THEN <<>> ELSE Visit(cfg, Parent(n), l))
Emitted(cfg, n, l) == IF l >= Effective(cfg, n) THEN Visit(cfg, n, l) ELSE <<>>
\* --- names, as segments
Named(segs) == IF segs = <<>> THEN <<"torchrir">> ELSE IF segs[1] = "torchrir" THEN segs ELSE <<"torchrir">> \o segs
===============================================================================
