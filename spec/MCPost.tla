------------------------------- MODULE MCPost -------------------------------
(* Small-scope pipeline: image -> tail -> high-pass, sample by sample.        *)
EXTENDS Post
CONSTANTS MaxFs, MaxT
VARIABLES fs, tmax, tdiff, ns, fc2, hpf, stage, sam, drawn
vars == <<fs, tmax, tdiff, ns, fc2, hpf, stage, sam, drawn>>
Den == 4
Init == /\ fs \in 1..MaxFs /\ tmax \in 0..MaxT /\ tdiff \in -1..MaxT /\ ns \in 0..4
        /\ tmax > 0 \/ ns > 0
        /\ (ns > 0 => (tmax = 0 \/ Count(fs, tmax, Den, 0) >= ns))
        /\ fc2 \in {1, 3, MaxFs} /\ hpf \in BOOLEAN
        /\ stage = "images" /\ sam = <<>> /\ drawn = 0
N == Count(fs, tmax, Den, ns)
Images == stage = "images" /\ stage' = "tail" /\ sam' = [k \in 1..N |-> <<"image", 0>>]
          /\ UNCHANGED <<fs, tmax, tdiff, ns, fc2, hpf, drawn>>
\* one random value per tail sample, in order
DrawTail ==
        /\ stage = "tail"
        /\ LET tail == HasTail(fs, tmax, tdiff, Den, ns)
               o == Onset(fs, tdiff, Den) IN
           IF tail /\ drawn < N - o
           THEN /\ drawn' = drawn + 1
                /\ sam' = [sam EXCEPT ![o + drawn + 1] = <<"tail", drawn + 1>>]
                /\ stage' = stage
           ELSE stage' = "hpf" /\ UNCHANGED <<sam, drawn>>
        /\ UNCHANGED <<fs, tmax, tdiff, ns, fc2, hpf>>
Hpf == /\ stage = "hpf"
       /\ IF ~hpf THEN stage' = "done" /\ UNCHANGED sam
          ELSE IF ~HpfOk(fs, fc2) THEN stage' = "refused" /\ UNCHANGED sam
          ELSE stage' = "done" /\ sam' = [k \in DOMAIN sam |-> <<"filtered", sam[k]>>]
       /\ UNCHANGED <<fs, tmax, tdiff, ns, fc2, hpf, drawn>>
Next == Images \/ DrawTail \/ Hpf
Spec == Init /\ [][Next]_vars
Raw(k) == IF sam[k][1] = "filtered" THEN sam[k][2] ELSE sam[k]
Early == stage = "done" => \A k \in 1..N : (tdiff >= 0 => k <= Onset(fs, tdiff, Den)) => Raw(k)[1] = "image"
TailFills == (stage = "done" /\ HasTail(fs, tmax, tdiff, Den, ns)) =>
   \A k \in (Onset(fs, tdiff, Den) + 1)..N : Raw(k) = <<"tail", k - Onset(fs, tdiff, Den)>>
NoTail == (stage = "done" /\ ~HasTail(fs, tmax, tdiff, Den, ns)) => \A k \in 1..N : Raw(k)[1] = "image" /\ drawn = 0
Length == stage \in {"hpf", "done"} => Len(sam) = N
Untouched == (stage = "done" /\ ~hpf) => \A k \in 1..N : sam[k][1] # "filtered"
\* with a consistent duration the tail is never empty
NonEmpty == HasTail(fs, tmax, tdiff, Den, ns) => N - Onset(fs, tdiff, Den) >= 1
=============================================================================
