-------------------------------- MODULE Trig --------------------------------
(* Sines, Fourier layers, sinusoidal embeddings, rotations.  Angles are in   *)
(* half degrees, sines in millionths.                                        *)
EXTENDS Conv

SinTable == <<
    0, 8727, 17452, 26177, 34899, 43619, 52336, 61049, 69756, 78459, 87156, 95846,
    104528, 113203, 121869, 130526, 139173, 147809, 156434, 165048, 173648, 182236, 190809, 199368,
    207912, 216440, 224951, 233445, 241922, 250380, 258819, 267238, 275637, 284015, 292372, 300706,
    309017, 317305, 325568, 333807, 342020, 350207, 358368, 366501, 374607, 382683, 390731, 398749,
    406737, 414693, 422618, 430511, 438371, 446198, 453990, 461749, 469472, 477159, 484810, 492424,
    500000, 507538, 515038, 522499, 529919, 537300, 544639, 551937, 559193, 566406, 573576, 580703,
    587785, 594823, 601815, 608761, 615661, 622515, 629320, 636078, 642788, 649448, 656059, 662620,
    669131, 675590, 681998, 688355, 694658, 700909, 707107, 713250, 719340, 725374, 731354, 737277,
    743145, 748956, 754710, 760406, 766044, 771625, 777146, 782608, 788011, 793353, 798636, 803857,
    809017, 814116, 819152, 824126, 829038, 833886, 838671, 843391, 848048, 852640, 857167, 861629,
    866025, 870356, 874620, 878817, 882948, 887011, 891007, 894934, 898794, 902585, 906308, 909961,
    913545, 917060, 920505, 923880, 927184, 930418, 933580, 936672, 939693, 942641, 945519, 948324,
    951057, 953717, 956305, 958820, 961262, 963630, 965926, 968148, 970296, 972370, 974370, 976296,
    978148, 979925, 981627, 983255, 984808, 986286, 987688, 989016, 990268, 991445, 992546, 993572,
    994522, 995396, 996195, 996917, 997564, 998135, 998630, 999048, 999391, 999657, 999848, 999962,
    1000000>>
RECURSIVE SinH(_)
SinH(a) ==                                   \* a integer number of half degrees
  LET r == a % 720 IN
  IF r >= 360 THEN -SinH(r - 360) ELSE IF r > 180 THEN SinTable[361 - r] ELSE SinTable[r + 1]
CosH(a) == SinH(a + 180)
(* a in millionths of a half degree, linear between table entries *)
SinU(a) == LET q == a \div 1000000
               r == (a % 1000000) \div 1000
               v == SinH(q)
           IN  v + ((SinH(q + 1) - v) * r) \div 1000
CosU(a) == LET q == a \div 1000000
               r == (a % 1000000) \div 1000
               v == CosH(q)
           IN  v + ((CosH(q + 1) - v) * r) \div 1000

(* ---- Fourier layers ---- *)
(* x = X * length / M, M divides 720; basis function j (0-based) in millionths *)
FourierBasisAt(j, X, M) ==
  IF j = 0 THEN 500000
  ELSE LET k == (j + 1) \div 2
           a == ((k * X) % M) * (720 \div M)
       IN  IF j % 2 = 1 THEN SinH(a) ELSE CosH(a)
FourierLink(w, X, M) == SumSeq([j \in DOMAIN w |-> w[j] * FourierBasisAt(j - 1, X, M)])
FourierOut(w, x, M) == SumSeq([i \in DOMAIN x |-> FourierLink(w[i], x[i], M)])
(* convolution: C as in Conv without a layer, w[o][q] the series of kernel entry q *)
FourierConvAt(C, kern, w, img, M, o, y, x) ==
  LET c0 == ((o - 1) \div (C.cout \div C.g)) * CinG(C)
      S(q) == LET i == Source(C, 1, y, kern[q][2], Len(img[1]))
                  j == Source(C, 2, x, kern[q][3], Len(img[1][1]))
              IN  IF i < 0 \/ j < 0 THEN 0
                  ELSE FourierLink(w[o][q], img[c0 + kern[q][1] + 1][i + 1][j + 1], M)
  IN  SumSeq([q \in DOMAIN kern |-> S(q)])

(* ---- sinusoidal embedding: frequencies 10000^(-k/m) in millionths ---- *)
FreqTable == <<
    <<1000000, 100>>,
    <<1000000, 10000, 100>>,
    <<1000000, 46416, 2154, 100>>,
    <<1000000, 100000, 10000, 1000, 100>>,
    <<1000000, 158489, 25119, 3981, 631, 100>>,
    <<1000000, 215443, 46416, 10000, 2154, 464, 100>>,
    <<1000000, 268270, 71969, 19307, 5179, 1389, 373, 100>>,
    <<1000000, 316228, 100000, 31623, 10000, 3162, 1000, 316, 100>>,
    <<1000000, 359381, 129155, 46416, 16681, 5995, 2154, 774, 278, 100>>,
    <<1000000, 398107, 158489, 63096, 25119, 10000, 3981, 1585, 631, 251, 100>>,
    <<1000000, 432876, 187382, 81113, 35112, 15199, 6579, 2848, 1233, 534, 231, 100>>,
    <<1000000, 464159, 215443, 100000, 46416, 21544, 10000, 4642, 2154, 1000, 464, 215, 100>>>>
FreqsOf20 == 
    <<1000000, 615848, 379269, 233572, 143845, 88587, 54556, 33598, 20691,
    12743, 7848, 4833, 2976, 1833, 1129, 695, 428, 264, 162, 100>>
FreqsOf33 == 
    <<1000000, 749894, 562341, 421697, 316228, 237137, 177828, 133352, 100000,
    74989, 56234, 42170, 31623, 23714, 17783, 13335, 10000, 7499, 5623, 4217,
    3162, 2371, 1778, 1334, 1000, 750, 562, 422, 316, 237, 178, 133, 100>>
FreqsOf40 == 
    <<1000000, 789652, 623551, 492388, 388816, 307029, 242446, 191448, 151178,
    119378, 94267, 74438, 58780, 46416, 36652, 28943, 22855, 18047, 14251,
    11253, 8886, 7017, 5541, 4375, 3455, 2728, 2154, 1701, 1343, 1061, 838, 661,
    522, 412, 326, 257, 203, 160, 127, 100>>
FreqsOf64 == 
    <<1000000, 863988, 746476, 644947, 557226, 481437, 415956, 359381, 310501,
    268270, 231782, 200257, 173020, 149487, 129155, 111588, 96411, 83298, 71969,
    62180, 53723, 46416, 40103, 34648, 29936, 25864, 22346, 19307, 16681, 14412,
    12452, 10758, 9295, 8031, 6939, 5995, 5179, 4475, 3866, 3340, 2886, 2494,
    2154, 1861, 1608, 1389, 1201, 1037, 896, 774, 669, 578, 499, 431, 373, 322,
    278, 240, 208, 179, 155, 134, 116, 100>>
Freqs(half) == IF half = 1 THEN <<1000000>>
               ELSE IF half < 14 THEN FreqTable[half - 1]
               ELSE CASE half = 20 -> FreqsOf20 [] half = 33 -> FreqsOf33
                      [] half = 40 -> FreqsOf40 [] half = 64 -> FreqsOf64
(* x * f modulo a full turn of 720 half degrees (in millionths), x >= 0 *)
Turn == 720000000
RECURSIVE MulTurn(_, _)
MulTurn(x, f) == IF x = 0 THEN 0
                 ELSE (2 * MulTurn(x \div 2, f) + (IF x % 2 = 1 THEN f ELSE 0)) % Turn
Phase(X, f) == IF X >= 0 THEN MulTurn(X, f) ELSE (Turn - MulTurn(-X, f)) % Turn
(* x = X half degrees *)
Embedding(half, X) == [k \in 1 .. 2 * half |->
   IF k <= half THEN SinU(Phase(X, Freqs(half)[k])) ELSE CosU(Phase(X, Freqs(half)[k - half]))]

(* ---- rotations: rows times 2^20 ---- *)
(* angle (pi/2) j / r, r divides 180 *)
Angle(j, r) == (180 \div r) * j
UnitRow(n, i) == [k \in 1 .. n |-> IF k = i THEN 1048576 ELSE 0]
PairRow(n, i, j, a, b) == [k \in 1 .. n |-> IF k = i THEN a ELSE IF k = j THEN b ELSE 0]
RotNorm(a, norm) == IF norm THEN CosH(a) + SinH(a) ELSE 1000000
Scaled(v, q) == ScaleBits(v, q, 20)
(* rows of the rotation layer; a row and its negative stand for the same    *)
(* orthogonal direction                                                      *)
RotationRows(n, r, norm) ==
  {<<UnitRow(n, i)>> : i \in 1 .. n} \cup
  UNION {UNION {LET a == Angle(t, r)
                    q == RotNorm(a, norm)
                    c == Scaled(CosH(a), q)
                    s == Scaled(SinH(a), q)
                IN  {<<PairRow(n, i, j, c, s)>>,
                     <<PairRow(n, i, j, s, -c), PairRow(n, i, j, -s, c)>>} :
                t \in 1 .. r - 1} : <<i, j>> \in {p \in (1 .. n) \X (1 .. n) : p[1] < p[2]}}
RotationWidth(n, r) == n + n * (n - 1) * (r - 1)
RowNear(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)
SomeForm(F, b, tol) == \E k \in DOMAIN F : RowNear(F[k], b, tol)

(* mesh line: coordinate along a (main) or orthogonal to it, times 2^k,      *)
(* spanning -m/2 .. m/2, at grid point (x, y) of w x h                       *)
MeshVal(a, main, x, y, w, h, m, k) ==
  LET c == CosH(a)
      s == SinH(a)
      v == IF main THEN c * x + s * y ELSE c * y - s * x
      lo == IF main THEN 0 ELSE -(s * (w - 1))
      hi == IF main THEN c * (w - 1) + s * (h - 1) ELSE c * (h - 1)
  IN  ScaleBits(m * (2 * v - lo - hi), 2 * (hi - lo), k)
=============================================================================
