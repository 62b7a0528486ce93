------------------------------- MODULE Norms --------------------------------
(* Normalisations.  A tensor is a flat sequence X of integers (over D) with  *)
(* a shape.  The members of the group of flat index p along an axis are the  *)
(* entries that differ from it only in that axis; axis -1 is the whole       *)
(* sample (first index).                                                     *)
EXTENDS Arith

Prod(q) == ProdSeq(q)
StrideOf(shape, axis) == Prod(SubSeq(shape, axis + 2, Len(shape)))
(* 0-based flat indices grouped with p *)
GroupOf(shape, axis, p) ==
  IF axis = -1
  THEN LET per == Prod(SubSeq(shape, 2, Len(shape)))
           b == p \div per
       IN  [k \in 1 .. per |-> b * per + k - 1]
  ELSE LET st == StrideOf(shape, axis)
           base == (p \div (st * shape[axis + 1])) * (st * shape[axis + 1]) + (p % st)
       IN  [k \in 1 .. shape[axis + 1] |-> base + (k - 1) * st]

(* largest j with s * 4^j below 2^30 *)
RECURSIVE Headroom(_)
Headroom(s) == IF s >= 268435456 THEN 0 ELSE 1 + Headroom(4 * s)
(* sqrt(s) as <<numerator, denominator>> with 15 or more significant bits *)
Root(s) == IF s = 0 THEN <<0, 1>> ELSE LET j == Headroom(s) IN <<ISqrt(s * Pow(4, j)), Pow(2, j)>>

(* floor of the value times 2^k; zero over zero is zero *)
Ratio(num, den, k) == IF den = 0 THEN 0 ELSE ScaleBits(num, den, k)

(* value of member x of group g (a sequence of integers), eps = en/ed *)
MaxAbsNorm(g, x, D, en, ed, k) ==
  Ratio(x * ed, MaxSeq(AbsSeq(g)) * ed + D * en, k)
MaxCenterNorm(g, x, D, en, ed, k) ==
  LET hi == MaxSeq(g)
      lo == MinSeq(g)
  IN  Ratio((2 * x - hi - lo) * ed, (hi - lo) * ed + 2 * D * en, k)
L2Norm(g, x, D, en, ed, k) ==
  LET r == Root(SumSeq([i \in DOMAIN g |-> g[i] * g[i]]))
  IN  Ratio(x * ed * r[2], r[1] * ed + D * en * r[2], k)
(* (x - mean) / sqrt(var + 1/100000), x over D *)
LayerNorm(g, x, D, k) ==
  LET n == Len(g)
      s == SumSeq(g)
      v == n * SumSeq([i \in DOMAIN g |-> g[i] * g[i]]) - s * s      \* n^2 D^2 var
      e == n * n * D * D
      j == IF v = 0 THEN 0 ELSE Headroom(v + e \div 100000 + 1)
      q == v * Pow(4, j) + ((e * Pow(4, Min2(j, Headroom(e)))) \div 100000) * Pow(4, j - Min2(j, Headroom(e)))
  IN  IF v = 0 THEN 0 ELSE ScaleBits((n * x - s) * Pow(2, j), ISqrt(q), k)

NormVal(kind, g, x, D, en, ed, k) ==
  CASE kind = "max_abs"    -> MaxAbsNorm(g, x, D, en, ed, k)
    [] kind = "max_center" -> MaxCenterNorm(g, x, D, en, ed, k)
    [] kind = "l2"         -> L2Norm(g, x, D, en, ed, k)
    [] kind = "layer_norm" -> LayerNorm(g, x, D, k)
Bounded(kind) == kind \in {"max_abs", "max_center", "l2"}
=============================================================================
