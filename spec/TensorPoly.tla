----------------------------- MODULE TensorPoly -----------------------------
(* Functions of d variables on a mesh of equal blocks: on each block a       *)
(* polynomial in the local coordinates, given by its terms.                  *)
(*  L = [dim, s (segments per dimension), in, out, hn, hd, pn, pd,           *)
(*       f[o][i][b] = sequence of [c, e] (coefficient, exponents), d,        *)
(*       deg (largest exponent per dimension)]                               *)
(* blocks are numbered with the last dimension varying fastest.              *)
EXTENDS PiecewisePoly

TDeg(f, dim) ==
  [k \in 1 .. dim |-> MaxSeq([o \in DOMAIN f |-> MaxSeq([i \in DOMAIN f[o] |-> MaxSeq([b \in DOMAIN f[o][i] |->
      MaxSeq(<<0>> \o [t \in DOMAIN f[o][i][b] |-> f[o][i][b][t].e[k]])])])])]
(* all sequences picking one member per position *)
Picks(S) == FoldLeft(LAMBDA acc, C : {Append(a, v) : a \in acc, v \in C}, {<<>>}, S)
TPeriod(L, D) == IF L.pn = 0 THEN 0 ELSE (L.pn * L.hd * D) \div L.pd
TPos(L, X, D) == [k \in DOMAIN X |-> Fold(X[k] * L.hd, TPeriod(L, D))]
BlockOf(L, q) == FoldLeft(LAMBDA acc, k : acc * L.s[k] + q[k], 0, [k \in 1 .. L.dim |-> k]) + 1
(* numerator over d * prod H_k^deg_k *)
TermVal(L, t, T, H) ==
  t.c * ProdSeq([k \in 1 .. L.dim |-> Pow(T[k], t.e[k]) * Pow(H[k], L.deg[k] - t.e[k])])
TH(L, D) == [k \in 1 .. L.dim |-> LocH(D * L.hn, L.s[k])]
TLink(L, o, i, X, D) ==
  LET U == D * L.hn
      P == TPos(L, X, D)
      H == TH(L, D)
      Val(q) == LET T == [k \in 1 .. L.dim |-> LocT(P[k], U, L.s[k], q[k])]
                    terms == L.f[o][i][BlockOf(L, q)]
                IN  SumSeq([j \in DOMAIN terms |-> TermVal(L, terms[j], T, H)])
  IN  {Val(q) : q \in Picks([k \in 1 .. L.dim |-> Segs(P[k], U, L.s[k])])}
TDen(L, D) == L.d * ProdSeq([k \in 1 .. L.dim |-> Pow(TH(L, D)[k], L.deg[k])])
TOut(L, o, row, D) == ChoiceFold(Add, 0, [i \in 1 .. L.in |-> TLink(L, o, i, row[i], D)])
=============================================================================
