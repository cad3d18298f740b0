------------------------------- MODULE Archive -------------------------------
(* C11.  Which archives may be unpacked into a destination, and what is there
   afterwards.

   The world is a tree of directories; a place is a sequence of names from the
   world's root.  `links` is a set of records [at, to] of symbolic links that
   are already on disk (places).  A member is
     [abs |-> BOOLEAN, comps |-> sequence of names, kind |-> "file"/"dir"/"sym"/"hard", body |-> k]. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Inside(dest, p) == Len(p) >= Len(dest) /\ SubSeq(p, 1, Len(dest)) = dest
LinkAt(links, p) == {l \in links : l.at = p}

\* one step of name resolution from place p
Go(links, p, name) ==
    LET q == IF name = ".." THEN (IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1))
             ELSE IF name \in {".", ""} THEN p
             ELSE Append(p, name)
        L == LinkAt(links, q)
    IN IF name \in {"..", ".", ""} \/ L = {} THEN q ELSE (CHOOSE l \in L : TRUE).to
Resolve(links, dest, m) ==
    FoldLeft(LAMBDA p, name : Go(links, p, name), IF m.abs THEN <<>> ELSE dest, m.comps)
\* the name as written, links not followed
Plain(dest, m) == Resolve({}, dest, m)

IsLink(m) == m.kind \in {"sym", "hard"}
Unsafe(links, dest, m) == IsLink(m) \/ ~Inside(dest, Resolve(links, dest, m))
\* a name that leaves the destination on its way and comes back, or is absolute
Steps(dest, m) == {FoldLeft(LAMBDA p, name : Go({}, p, name), IF m.abs THEN <<>> ELSE dest, SubSeq(m.comps, 1, i)) :
                   i \in 0..Len(m.comps)}
Roundabout(dest, m) == m.abs \/ \E p \in Steps(dest, m) : ~Inside(dest, p)

Files(dest, ms) == {i \in 1..Len(ms) : ms[i].kind = "file"}
Place(dest, m) == Plain(dest, m)
\* a file where another member needs a directory, or two kinds at one place
Conflict(dest, links, ms) ==
    \E i, j \in 1..Len(ms) :
        LET a == Resolve(links, dest, ms[i]) b == Resolve(links, dest, ms[j])
        IN \/ i # j /\ a = b /\ (ms[i].kind # ms[j].kind)
           \/ ms[i].kind = "file" /\ Len(b) > Len(a) /\ SubSeq(b, 1, Len(a)) = a
\* a directory member through "a/../b" needs a; tools differ in creating it
Dotted(m) == \/ \E i \in 1..Len(m.comps) : m.comps[i] = ".."
             \/ m.kind = "file" /\ m.comps[Len(m.comps)] \in {".", ""}
\* a file without a name of its own below the destination
Nameless(dest, m) == m.kind = "file" /\ Len(Plain(dest, m)) <= Len(dest)

\* disk: what is there before, as members of kind file or dir
VerdictOn(dest, links, disk, ms) ==
    IF \E i \in 1..Len(ms) : Unsafe(links, dest, ms[i]) THEN "refuse"
    ELSE IF \E i \in 1..Len(ms) : Roundabout(dest, ms[i]) \/ Dotted(ms[i]) \/ Nameless(dest, ms[i]) THEN "contained"
    ELSE IF Conflict(dest, links, ms \o disk) THEN "contained"
    ELSE "extract"

Verdict(dest, links, ms) == VerdictOn(dest, links, <<>>, ms)

\* afterwards, read through the links: the last file written at a place
Content(dest, links, ms) ==
    {[at |-> SubSeq(Place(dest, ms[i]), Len(dest) + 1, Len(Place(dest, ms[i]))), body |-> ms[i].body] :
        i \in {i \in Files(dest, ms) :
                 \A j \in Files(dest, ms) : j > i => Resolve(links, dest, ms[j]) # Resolve(links, dest, ms[i])}}
Dirs(dest, ms) == {SubSeq(Place(dest, ms[i]), Len(dest) + 1, Len(Place(dest, ms[i]))) : i \in {i \in 1..Len(ms) : ms[i].kind = "dir"}}
=============================================================================
