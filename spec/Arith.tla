------------------------------- MODULE Arith -------------------------------
(* Exact integer helpers shared by every specification module.  All values  *)
(* are plain TLC integers (32 bit, overflow is an error and never silent);  *)
(* real numbers of the implementation are represented as numerators over a  *)
(* denominator that is part of the specification, never as approximations.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(a)          == IF a < 0 THEN -a ELSE a
Min2(a, b)      == IF a < b THEN a ELSE b
Max2(a, b)      == IF a < b THEN b ELSE a
Clamp(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
Sign(a)         == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Near(a, b, tol) == Abs(a - b) <= tol

RECURSIVE Pow(_, _)
Pow(b, e) == IF e <= 0 THEN (IF Assert(e = 0, "negative power") THEN 1 ELSE 0) ELSE b * Pow(b, e - 1)

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % Abs(b))
LCM(a, b) == (a \div GCD(a, b)) * b

(* the same sequence; makes TLC evaluate it once instead of at every access *)
Force(q) == q \o <<>>

Add(a, b)  == a + b
Mul(a, b)  == a * b
SumSeq(q)  == FoldLeft(Add, 0, q)
ProdSeq(q) == FoldLeft(Mul, 1, q)
MaxSeq(q)  == FoldLeft(Max2, q[1], q)
MinSeq(q)  == FoldLeft(Min2, q[1], q)
AbsSeq(q)  == [i \in DOMAIN q |-> Abs(q[i])]
SumF(f(_), k) == SumSeq([i \in 1 .. k |-> f(i)])

(* integer part of the square root *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(a, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN  IF mid * mid <= a THEN ISqrtB(a, mid, hi) ELSE ISqrtB(a, lo, mid)
ISqrt(a) == ISqrtB(a, 0, 46341)

(* division rounding to nearest, for positive divisors *)
DivR(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)

(* floor(a * 2^k / d) by long division, d < 2^30: never forms a * 2^k *)
RECURSIVE LongDiv(_, _, _, _)
LongDiv(q, r, d, k) == IF k = 0 THEN q
                       ELSE IF 2 * r >= d THEN LongDiv(2 * q + 1, 2 * r - d, d, k - 1)
                                          ELSE LongDiv(2 * q, 2 * r, d, k - 1)
ScaleBits(a, d, k) == LongDiv(a \div d, a % d, d, k)

(* all sums / products of one choice per position *)
ChoiceFold(Op(_, _), e, sets) ==
  FoldLeft(LAMBDA acc, S : {Op(a, v) : a \in acc, v \in S}, {e}, sets)
=============================================================================
