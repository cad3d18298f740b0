------------------------------- MODULE Accel -------------------------------
(***************************************************************************)
(* Calls whose tensors live on the CPU or on an accelerator.  The place      *)
(* decides how a response is computed: with or without the interpolation     *)
(* table (never on MPS), through a compiled program or directly (never on     *)
(* the CPU).  Tables and programs are kept for later calls under a key of     *)
(* settings.  What a call returns is the settings that really took effect,    *)
(* so it is right iff they are its own.                                       *)
(* Forget = a setting the keys leave out (a defect), or "none".               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Forget, EmitMod
VARIABLES hist, tables, programs, results
vars == <<hist, tables, programs, results>>

Places == {"cpu", "cuda", "mps"}
\* single precision, short filter, coarse table, table wanted, compiling wanted, small batches
Ops == {o \in [place : Places, single : BOOLEAN, short : BOOLEAN, coarse : BOOLEAN, lut : BOOLEAN, comp : BOOLEAN,
               small : BOOLEAN] : o.place = "mps" => o.single}
UsesTable(o) == o.lut /\ o.place # "mps"
UsesProgram(o) == o.comp /\ o.place # "cpu"

Without(r) == [f \in DOMAIN r \ {Forget} |-> r[f]]
TableKey(o) == Without([place |-> o.place, single |-> o.single, short |-> o.short, coarse |-> o.coarse])
ProgramKey(o) == Without([place |-> o.place, single |-> o.single, short |-> o.short, coarse |-> o.coarse,
                          lut |-> UsesTable(o), small |-> o.small])
\* stored: sets of [key, of], of = the call that made the entry
Lookup(set, key, own) == IF \E e \in set : e.key = key THEN (CHOOSE e \in set : e.key = key).of ELSE own
Keep(set, key, own) == IF \E e \in set : e.key = key THEN set ELSE set \cup {[key |-> key, of |-> own]}

\* the program fixes filter and table settings; tables are looked up for the place and precision of the tensors at hand
Effect(o, tb, pr) ==
  LET p == IF UsesProgram(o) THEN Lookup(pr, ProgramKey(o), o) ELSE o
      q == [o EXCEPT !.short = p.short, !.coarse = p.coarse]
      t == IF UsesTable(p) THEN Lookup(tb, TableKey(q), q) ELSE q
  IN [short |-> p.short, table |-> UsesTable(p),
      tableOf |-> IF UsesTable(p) THEN [place |-> t.place, single |-> t.single, short |-> t.short, coarse |-> t.coarse]
                  ELSE [place |-> o.place, single |-> o.single, short |-> p.short, coarse |-> FALSE]]
Want(o) == [short |-> o.short, table |-> UsesTable(o),
            tableOf |-> [place |-> o.place, single |-> o.single, short |-> o.short, coarse |-> UsesTable(o) /\ o.coarse]]

Init == hist = <<>> /\ tables = {} /\ programs = {} /\ results = <<>>
Call(o) == /\ hist' = Append(hist, o)
           /\ results' = Append(results, Effect(o, tables, programs))
           /\ tables' = IF Effect(o, tables, programs).table
                        THEN LET p == IF UsesProgram(o) THEN Lookup(programs, ProgramKey(o), o) ELSE o
                                 q == [o EXCEPT !.short = p.short, !.coarse = p.coarse]
                             IN Keep(tables, TableKey(q), q)
                        ELSE tables
           /\ programs' = IF UsesProgram(o) THEN Keep(programs, ProgramKey(o), o) ELSE programs
Next == Len(hist) < MaxLen /\ \E o \in Ops : Call(o)
Spec == Init /\ [][Next]_vars

\* every call gets what its own settings stand for, whatever was computed before and where
Pure == \A i \in 1..Len(hist) : results[i] = Want(hist[i])
NoTableOnMps == \A i \in 1..Len(hist) : hist[i].place = "mps" => ~results[i].table
\* a program or table is made once per key
Once == \A e, f \in programs : e.key = f.key => e = f
Bit(b) == IF b THEN 1 ELSE 0
Num(o) == Bit(o.single) + 2 * Bit(o.short) + 4 * Bit(o.coarse) + 8 * Bit(o.lut) + 16 * Bit(o.comp) + 32 * Bit(o.small)
          + 64 * (CASE o.place = "cpu" -> 0 [] o.place = "cuda" -> 1 [] OTHER -> 2)
Hash == (Num(hist[1]) * 193 + Num(hist[2]) * 71 + 5) % 10007
Emit == (Len(hist) = MaxLen /\ Hash % EmitMod = 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
