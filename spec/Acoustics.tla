------------------------------ MODULE Acoustics ------------------------------
(* C25.  Sabine's formula and image counts in integers: sizes in decimetres,
   reflection coefficients in hundredths, times in milliseconds.              *)
EXTENDS Integers, Sequences
Lz(s) == IF Len(s) = 3 THEN s[3] ELSE 10                  \* a 2-D room is one metre high, without floor and ceiling
Volume(s) == s[1] * s[2] * Lz(s)                           \* dm^3
\* the area of wall w: 1,2 across x; 3,4 across y; 5,6 across z
Face(s, w) == CASE w \in {1, 2} -> s[2] * Lz(s) [] w \in {3, 4} -> s[1] * Lz(s) [] OTHER -> s[1] * s[2]
Walls(s) == 2 * Len(s)
RECURSIVE SumFace(_, _)
SumFace(s, w) == IF w = 0 THEN 0 ELSE SumFace(s, w - 1) + Face(s, w)
Surface(s) == SumFace(s, Walls(s))
\* absorption area in dm^2 / 10^4
RECURSIVE AbsorbAcc(_, _, _)
AbsorbAcc(s, b, w) == IF w = 0 THEN 0 ELSE AbsorbAcc(s, b, w - 1) + Face(s, w) * (10000 - b[w] * b[w])
Absorb(s, b) == AbsorbAcc(s, b, Walls(s))
\* the reverberation time is 0.161 V / A; alpha = 16.1 V / (t S) with t in ms
\* the mean absorption a time asks for, in thousandths
AlphaMilli(s, t) == IF Volume(s) <= 10000 THEN ((161000 * Volume(s)) \div Surface(s)) \div (10 * t)
                    ELSE (10 * ((1610 * Volume(s)) \div Surface(s))) \div t
Attainable(s, t) == IF AlphaMilli(s, t) <= 996 THEN "yes" ELSE IF AlphaMilli(s, t) >= 1002 THEN "no" ELSE "either"
CeilDiv(a, b) == (a + b - 1) \div b
\* tmax in ms, c in m/s: images along axis i
ImageCount(t, c, s, i) == CeilDiv(t * c, 100 * s[i])
\* a quotient that is an integer may come out one image larger by rounding
OnTheDot(t, c, s, i) == (t * c) % (100 * s[i]) = 0
=============================================================================
