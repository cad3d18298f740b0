------------------------------- MODULE Arrays -------------------------------
(* C22.  Microphone array layouts as exact offsets from the centre.

   Polyhedra live in the ring Z[phi], phi the golden ratio: <<a, b>> stands for
   a + b*phi, so that equal norms and edge lengths are decided exactly.
   Linear arrays are counted in half spacings; the two spherical arrays are the
   manufacturer's angle tables in 1/10000 degree.                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Times(x, y) == <<x[1] * y[1] + x[2] * y[2], x[1] * y[2] + x[2] * y[1] + x[2] * y[2]>>
Neg(x) == <<-x[1], -x[2]>>
\* a + b*phi > 0, with 2(a + b*phi) = p + b*sqrt(5), p = 2a + b
Positive(x) == LET p == 2 * x[1] + x[2] b == x[2]
               IN IF p >= 0 /\ b >= 0 THEN p + b > 0
                  ELSE IF p <= 0 /\ b <= 0 THEN FALSE
                  ELSE IF b > 0 THEN 5 * b * b > p * p ELSE p * p > 5 * b * b
Less(x, y) == Positive(Minus(y, x))

Zero == <<0, 0>>
One == <<1, 0>>
Phi == <<0, 1>>
InvPhi == <<-1, 1>>     \* phi - 1 = 1 / phi
Signs(x) == {x, Neg(x)}
Perms3(x, y, z) == {<<x, y, z>>, <<y, z, x>>, <<z, x, y>>}    \* cyclic

Solids == {"tetrahedron", "cube", "octahedron", "dodecahedron", "icosahedron"}
Cube == {<<x, y, z>> : x \in Signs(One), y \in Signs(One), z \in Signs(One)}
Vertices(k) ==
    CASE k = "tetrahedron" -> {v \in Cube : Cardinality({i \in 1..3 : v[i] = Neg(One)}) \in {0, 2}}
      [] k = "cube" -> Cube
      [] k = "octahedron" -> UNION {Perms3(s, Zero, Zero) : s \in Signs(One)}
      [] k = "icosahedron" -> UNION {Perms3(Zero, s, t) : s \in Signs(One), t \in Signs(Phi)}
      [] k = "dodecahedron" -> Cube \cup UNION {Perms3(Zero, s, t) : s \in Signs(InvPhi), t \in Signs(Phi)}
Count(k) == CASE k = "tetrahedron" -> 4 [] k = "cube" -> 8 [] k = "octahedron" -> 6
              [] k = "dodecahedron" -> 20 [] k = "icosahedron" -> 12
Degree(k) == CASE k = "tetrahedron" -> 3 [] k = "cube" -> 3 [] k = "octahedron" -> 4
              [] k = "dodecahedron" -> 3 [] k = "icosahedron" -> 5
Norm2(v) == Plus(Plus(Times(v[1], v[1]), Times(v[2], v[2])), Times(v[3], v[3]))
Dist2(v, w) == Norm2(<<Minus(v[1], w[1]), Minus(v[2], w[2]), Minus(v[3], w[3])>>)
Sum3(S, i) == <<MapThenSumSet(LAMBDA v : v[i][1], S), MapThenSumSet(LAMBDA v : v[i][2], S)>>

\* the laws that make it the regular solid it is named after
Regular(k) ==
    LET V == Vertices(k)
        Edge(v) == CHOOSE d \in {Dist2(v, w) : w \in V \ {v}} : \A w \in V \ {v} : ~Less(Dist2(v, w), d)
        e == Edge(CHOOSE v \in V : TRUE)
    IN /\ Cardinality(V) = Count(k)
       /\ \A v, w \in V : Norm2(v) = Norm2(w)
       /\ \A v \in V : Edge(v) = e /\ Cardinality({w \in V : Dist2(v, w) = e}) = Degree(k)
       /\ \A i \in 1..3 : Sum3(V, i) = Zero

\* linear: the i-th of n microphones, in half spacings
Linear(n, i) == 2 * (i - 1) - (n - 1)
LinearLaws(n) == /\ \A i \in 1..(n - 1) : Linear(n, i + 1) - Linear(n, i) = 2
                 /\ \A i \in 1..n : Linear(n, i) = -Linear(n, n + 1 - i)
\* circular: the angle of microphone i of n as the fraction (i-1)/n of a turn from the first
\* requests and whether they are refused
LinearOk(dim, n, spacing, axis, dirdim) == n > 0 /\ spacing > 0 /\ (IF dirdim = 0 THEN axis \in 0..(dim - 1) ELSE dirdim = dim)
CircularOk(dim, n, radius, plane, normdim) ==
    n > 0 /\ radius > 0 /\ dim \in {2, 3} /\ (dim = 2 \/ IF normdim = 0 THEN plane \in {"xy", "xz", "yz"} ELSE normdim = 3)
SphereOk(dim, radius, kind) == dim = 3 /\ radius > 0 /\ kind \in Solids \cup {"em32", "em64"}

\* colatitude and azimuth in 1/10000 degree
EM32 == <<
 <<690000,0>>,<<900000,320000>>,<<1110000,0>>,<<900000,3280000>>,<<320000,0>>,<<550000,450000>>,<<900000,690000>>,
 <<1250000,450000>>,<<1480000,0>>,<<1250000,3150000>>,<<900000,2910000>>,<<550000,3150000>>,<<210000,910000>>,
 <<580000,900000>>,<<1210000,900000>>,<<1590000,890000>>,<<690000,1800000>>,<<900000,2120000>>,<<1110000,1800000>>,
 <<900000,1480000>>,<<320000,1800000>>,<<550000,2250000>>,<<900000,2490000>>,<<1250000,2250000>>,<<1480000,1800000>>,
 <<1250000,1350000>>,<<900000,1110000>>,<<550000,1350000>>,<<210000,2690000>>,<<580000,2700000>>,<<1220000,2700000>>,
 <<1590000,2710000>> >>
EM64 == <<
 <<167656,1974561>>,<<219677,1157340>>,<<423941,819110>>,<<132817,3133592>>,<<226728,431785>>,
 <<526925,467324>>,<<378060,3359958>>,<<433944,145398>>,<<439386,2044547>>,<<703132,2065420>>,
 <<332231,2473219>>,<<600257,2338170>>,<<564763,2645437>>,<<674936,996669>>,<<932735,1046842>>,
 <<484230,1209227>>,<<780793,1265130>>,<<620685,1482368>>,<<387171,1626381>>,<<638004,1785498>>,
 <<701946,212715>>,<<962460,257834>>,<<810992,478607>>,<<1060940,559075>>,<<677533,714285>>,<<917061,784921>>,
 <<399985,2932210>>,<<687726,2905683>>,<<608869,3181354>>,<<822833,3340042>>,<<630247,3520227>>,<<897940,0>>,
 <<1375166,1740335>>,<<1397604,2127205>>,<<1352133,2519179>>,<<1603628,1506471>>,<<1625770,2408266>>,
 <<1420685,2930625>>,<<1611987,3310098>>,<<1625770,608266>>,<<1155360,2269135>>,<<862594,2339255>>,
 <<1160164,1936382>>,<<953313,2096696>>,<<900637,1831690>>,<<1114549,1637105>>,<<858671,1569524>>,
 <<1308398,1394318>>,<<1025775,1359729>>,<<1426375,1023273>>,<<1170320,1125511>>,<<1175631,831464>>,
 <<1158884,3077078>>,<<896900,3091392>>,<<1184478,2782519>>,<<939338,2829735>>,<<1063875,2531470>>,
 <<810511,2600688>>,<<1359764,597394>>,<<1426771,142241>>,<<1206556,324901>>,<<1338834,3340753>>,
 <<1163591,20842>>,<<1074640,3350677>> >>
\* every capsule of the em32 has one opposite to it, up to a degree
EM32Antipodal == \A i \in 1..32 : \E j \in 1..32 :
                    /\ 1800000 - EM32[i][1] - EM32[j][1] \in -10000..10000
                    /\ \E k \in {-1, 0, 1} : EM32[i][2] + 1800000 - EM32[j][2] + k * 3600000 \in -20000..20000
Bands(T, lo, hi) == Cardinality({i \in 1..Len(T) : T[i][1] >= lo /\ T[i][1] < hi})
=============================================================================
