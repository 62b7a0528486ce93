---------------------------- MODULE PiecewisePoly ---------------------------
(* The abstract value of a link: a piecewise polynomial on the domain       *)
(* [-half, half] cut into s equal segments.  On every segment it is a       *)
(* polynomial with integer coefficients in the local coordinate t in        *)
(* [-1, 1], over one denominator d kept by the layer.  Weights do not occur  *)
(* here: a weight is the value of the polynomial at a Chebyshev-Lobatto     *)
(* node, so the polynomial is what the weights mean.                        *)
(*                                                                          *)
(* Positions are integers X in units of half/U (x = X * half / U).          *)
EXTENDS Arith

(* ---- mesh ---- *)
(* segment, counted from 0, that contains X; ends are continued outwards *)
Seg(X, U, s) == Clamp((s * (X + U)) \div (2 * U), 0, s - 1)
(* segments that may own X: both neighbours for an interior edge *)
OnEdge(X, U, s) == /\ X > -U /\ X < U
                   /\ (s * (X + U)) % (2 * U) = 0
Segs(X, U, s) == IF OnEdge(X, U, s) THEN {Seg(X, U, s) - 1, Seg(X, U, s)}
                                    ELSE {Seg(X, U, s)}
(* local coordinate in segment k is LocT / LocH *)
LocH(U, s) == IF U % s = 0 THEN U \div s ELSE U
LocT(X, U, s, k) == IF U % s = 0 THEN (X + U) - (2 * k + 1) * (U \div s)
                                 ELSE s * (X + U) - (2 * k + 1) * U

(* ---- mirror periodicity ---- *)
(* reflect X into [-P/2, P/2]; P even, 0 means no periodicity *)
Fold(X, P) == IF P = 0 THEN X
              ELSE LET m == (X + P \div 2) % (2 * P)
                   IN (IF m > P THEN 2 * P - m ELSE m) - P \div 2

(* slope of the reflection, and the points where it turns *)
FoldSlope(X, P) == IF P = 0 THEN 1 ELSE IF (X + P \div 2) % (2 * P) > P THEN -1 ELSE 1
AtMirror(X, P)  == P # 0 /\ (X + P \div 2) % P = 0

(* ---- polynomials: c[1] + c[2] t + c[3] t^2 ... ---- *)
RECURSIVE HomEval(_, _, _, _)
(* sum over j >= k of c[j] T^(j-k) H^(Len(c)-j) *)
HomEval(c, T, H, k) ==
  IF k = Len(c) THEN c[k] ELSE c[k] * Pow(H, Len(c) - k) + T * HomEval(c, T, H, k + 1)
(* numerator of the value at t = T/H over H^N, N >= degree *)
PEval(c, T, H, N) == HomEval(c, T, H, 1) * Pow(H, N - Len(c) + 1)
PDeriv(c) == IF Len(c) = 1 THEN <<0>> ELSE Force([k \in 1 .. Len(c) - 1 |-> k * c[k + 1]])
PAtPlus1(c)  == SumSeq(c)
PAtMinus1(c) == SumSeq([k \in DOMAIN c |-> IF k % 2 = 1 THEN c[k] ELSE -c[k]])
PScale(c, a) == Force([k \in DOMAIN c |-> a * c[k]])
PCoef(c, k)  == IF k <= Len(c) THEN c[k] ELSE 0
PAdd(a, b)   == Force([k \in 1 .. Max2(Len(a), Len(b)) |-> PCoef(a, k) + PCoef(b, k)])
PShift(c)    == <<0>> \o c                                   \* times t
PMirror(c)   == Force([k \in DOMAIN c |-> IF k % 2 = 1 THEN c[k] ELSE -c[k]]) \* t -> -t
RECURSIVE Degree(_)
Degree(c) == IF Len(c) = 1 THEN 0 ELSE IF c[Len(c)] # 0 THEN Len(c) - 1
             ELSE Degree(SubSeq(c, 1, Len(c) - 1))

(* no leading zeros *)
Trim(c) == SubSeq(c, 1, Degree(c) + 1)
FTrim(f) == Force([k \in DOMAIN f |-> Trim(f[k])])

(* Chebyshev polynomials of the second kind *)
RECURSIVE ChebU(_)
ChebU(k) == IF k = 0 THEN <<1>> ELSE IF k = 1 THEN <<0, 2>>
            ELSE PAdd(PScale(PShift(ChebU(k - 1)), 2), PScale(ChebU(k - 2), -1))
(* The cardinal polynomial of the last Chebyshev-Lobatto node of n >= 2 is   *)
(* (1+t) U_{n-2}(t) / (2 (n-1)); the one of the first node is its mirror.    *)
LastCard(n)  == PAdd(ChebU(n - 2), PShift(ChebU(n - 2)))     \* over 2(n-1)
FirstCard(n) == PMirror(LastCard(n))

(* ---- piecewise functions: a sequence of s polynomials ---- *)
FDegree(f) == MaxSeq([k \in DOMAIN f |-> Degree(f[k])])
FCont(f) == \A k \in 1 .. Len(f) - 1 : PAtPlus1(f[k]) = PAtMinus1(f[k + 1])
(* the set of values at X: two at an interior edge (equal if continuous) *)
FVals(f, X, U, N) ==
  LET s == Len(f) IN
  {PEval(f[k + 1], LocT(X, U, s, k), LocH(U, s), N) : k \in Segs(X, U, s)}
(* derivative with respect to t *)
FDerivs(f, X, U, N) ==
  LET s == Len(f) IN
  {PEval(PDeriv(f[k + 1]), LocT(X, U, s, k), LocH(U, s), N) : k \in Segs(X, U, s)}
=============================================================================
