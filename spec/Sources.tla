-------------------------------- MODULE Sources -------------------------------
(* C14.  Loading fixed-length source signals from a dataset.

   A speaker's utterances are a sequence of [id, len, rate, base]: sample j of
   the utterance is the integer base + j.  A result is one record
   [spk, ids, sig] per source.                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

Utt(us, id) == CHOOSE u \in Range(us) : u.id = id
Ids(us) == {u.id : u \in Range(us)}
Samples(u) == [j \in 1..u.len |-> u.base + j]
RECURSIVE Concat(_, _)
Concat(us, ids) == IF ids = <<>> THEN <<>> ELSE Samples(Utt(us, Head(ids))) \o Concat(us, Tail(ids))
RECURSIVE Total(_, _)
Total(us, ids) == IF ids = <<>> THEN 0 ELSE Utt(us, Head(ids)).len + Total(us, Tail(ids))

Distinct(s) == Cardinality(Range(s)) = Len(s)
\* an utterance comes again only after all others: every run of N from a
\* multiple of N on has no repetition
Fair(us, ids) == LET N == Cardinality(Ids(us)) IN
    \A i, j \in 1..Len(ids) : i # j /\ (i - 1) \div N = (j - 1) \div N => ids[i] # ids[j]
\* enough, and without the last one not enough
Minimal(us, ids, target) == Len(ids) > 0 /\ Total(us, ids) >= target /\ Total(us, Front(ids)) < target

SourceWrong(us, r, target) ==
    IF ~(Range(r.ids) \subseteq Ids(us)) THEN "reports an utterance the speaker does not have"
    ELSE IF Len(r.sig) # target THEN "is not as long as requested"
    ELSE IF ~Minimal(us, r.ids, target) THEN "reports more or fewer utterances than needed"
    ELSE IF ~Fair(us, r.ids) THEN "repeats an utterance before all were used"
    ELSE IF r.sig # SubSeq(Concat(us, r.ids), 1, target) THEN "is not the beginning of what it reports"
    ELSE ""

\* duration in milliseconds; a whole number of samples may lose one to rounding
Targets(ms, fs) == {(ms * fs) \div 1000} \cup (IF (ms * fs) % 1000 = 0 /\ ms * fs > 1000 THEN {(ms * fs) \div 1000 - 1} ELSE {})

\* the whole call: utts maps speakers to utterances, out is the outcome, loads
\* the <<speaker, id>> pairs actually read
Judge(names, utts, num, ms, out, loads) ==
    LET rates == {Utt(utts[l[1]], l[2]).rate : l \in Range(loads)} IN
    IF out.ok THEN
        IF num > Len(names) \/ Len(out.rows) # num THEN "wrong number of sources"
        ELSE IF ~Distinct([i \in 1..num |-> out.rows[i].spk]) THEN "a speaker twice"
        ELSE IF \E i \in 1..num : out.rows[i].spk \notin Range(names) THEN "an unknown speaker"
        ELSE IF rates # {out.fs} THEN "mixed sampling rates were accepted"
        ELSE IF \A n \in Targets(ms, out.fs) : \E i \in 1..num : Len(out.rows[i].sig) # n THEN "wrong length"
        ELSE LET W == {i \in 1..num : SourceWrong(utts[out.rows[i].spk], out.rows[i], Len(out.rows[i].sig)) # ""} IN
             IF W # {} THEN LET i == CHOOSE i \in W : TRUE IN SourceWrong(utts[out.rows[i].spk], out.rows[i], Len(out.rows[i].sig))
             ELSE IF Range(loads) # UNION {{<<out.rows[i].spk, u>> : u \in Range(out.rows[i].ids)} : i \in 1..num}
                  THEN "what was read is not what is reported"
             ELSE ""
    ELSE IF num > Len(names) \/ Cardinality(rates) > 1
            \/ \E s \in Range(names) : utts[s] = <<>> THEN "" ELSE "failed without reason"
===============================================================================
