----------------------------- MODULE MCAcoustics -----------------------------
(* Laws of the formulas on a grid. *)
EXTENDS Acoustics, TLC
CONSTANTS Sizes, Betas
VARIABLES s, b
Init == s \in UNION {[1..n -> Sizes] : n \in {2, 3}} /\ b = <<>>
Next == b = <<>> /\ b' \in [1..Walls(s) -> Betas] /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, b>>
Swap(x) == [x EXCEPT ![1] = x[2], ![2] = x[1]]
SwapB(x) == [x EXCEPT ![1] = x[3], ![2] = x[4], ![3] = x[1], ![4] = x[2]]
Laws == b # <<>> =>
    /\ Absorb(s, b) >= 0 /\ (Absorb(s, b) = 0 <=> \A w \in 1..Walls(s) : b[w] = 100)
    /\ Absorb(Swap(s), SwapB(b)) = Absorb(s, b)
    /\ \A w \in 1..Walls(s) : Absorb(s, [b EXCEPT ![w] = 0]) >= Absorb(s, b)
    /\ Surface(s) * 10000 = Absorb(s, [w \in 1..Walls(s) |-> 0])
CountLaws == \A i \in 1..Len(s) : \A t \in {1, 7, 100, 250} : \A c \in {340, 343} :
    LET n == ImageCount(t, c, s, i) IN n * 100 * s[i] >= t * c /\ (n - 1) * 100 * s[i] < t * c
=============================================================================
