-------------------------------- MODULE MCAudio --------------------------------
(* Every small tensor, saved over an earlier file, loaded and saved again.     *)
EXTENDS Audio, TLC
CONSTANTS MaxRows, MaxCols, Vals, Peaks, Flaw
VARIABLES tensor, given, disk, last, err
vars == <<tensor, given, disk, last, err>>
Shapes == {<<n>> : n \in 1..MaxCols} \cup {<<a, b>> : a \in 1..MaxRows, b \in 1..MaxCols}
Size(sh) == IF Len(sh) = 1 THEN sh[1] ELSE sh[1] * sh[2]
Cell(sh, k) == IF Len(sh) = 1 THEN <<k, 1>> ELSE <<((k - 1) \div sh[2]) + 1, ((k - 1) % sh[2]) + 1>>
AllT == UNION {{[shape |-> sh, unit |-> 4, nz |-> [k \in 1..Size(sh) |-> <<Cell(sh, k)[1], Cell(sh, k)[2], f[k]>>]] :
                f \in [1..Size(sh) -> Vals]} : sh \in {s \in Shapes : Size(s) <= 8}}
None == [chans |-> 0, frames |-> 0, data |-> <<>>, factor |-> [num |-> 0, den |-> 1]]
Init == tensor \in AllT /\ given = tensor /\ disk = None /\ last = None /\ err = FALSE
Stored(norm, peak) == LET f == File(tensor, norm, peak) IN
    IF Flaw = "narrow" /\ Len(tensor.shape) = 2 /\ tensor.shape[1] > Few
    THEN [f EXCEPT !.chans = tensor.shape[2], !.frames = tensor.shape[1]] ELSE f
Save(norm, peak) == /\ disk = None
    /\ err' = Refused(norm, peak)
    /\ disk' = (IF err' THEN disk ELSE Stored(norm, peak))
    /\ tensor' = (IF ~err' /\ Flaw = "inplace" /\ norm THEN [tensor EXCEPT !.unit = MaxAbs(tensor) + 1] ELSE tensor)
    /\ UNCHANGED <<given, last>>
Load == disk # None /\ last' = disk /\ UNCHANGED <<tensor, given, disk, err>>
PeaksD == {<<1, 1>>, <<1, 2>>, <<0, 1>>}
ValsD == {-2, 0, 1}
ValsE == {-2, 0, 4}
Next == Load \/ \E norm \in BOOLEAN, peak \in Peaks : Save(norm, peak)
Spec == Init /\ [][Next]_vars
\* --- what must hold
Untouched == tensor = given
Refusal == err => disk = None
\* with fewer channels than frames every channel of either layout is a channel
Audio2(x) == Len(x.shape) = 2 /\ x.shape[1] # x.shape[2]
Layouts == (disk # None /\ Audio2(given) /\ (given.shape[1] > Few \/ given.shape[1] < given.shape[2])) =>
    disk.chans = (IF given.shape[1] < given.shape[2] THEN given.shape[1] ELSE given.shape[2])
Inside == \A k \in 1..Len(disk.data) : disk.data[k][1] \in 1..disk.chans /\ disk.data[k][2] \in 1..disk.frames
Kept == disk # None => Len(disk.data) = Len(given.nz)
\* the largest magnitude is the peak: |v| * num / den over all v
Full(f) == LET S == {Abs(f.data[k][3]) : k \in 1..Len(f.data)} IN CHOOSE m \in S : \A n \in S : n <= m
Peak == disk # None => \/ disk.factor = [num |-> 1, den |-> 4]
                       \/ \E p \in Peaks : Full(disk) * disk.factor.num * p[2] = p[1] * disk.factor.den
Silence == (disk # None /\ MaxAbs(given) = 0) => disk.factor = [num |-> 1, den |-> given.unit]
Same == last # None => last = disk
===============================================================================
