------------------------------ MODULE Attention -----------------------------
(* Attention.  Scores are base-2 logarithms in millionths, so a score of     *)
(* 3000000 means weight 8; every tensor is integer.                          *)
EXTENDS Arith

Exp2Table == <<
    262144, 264999, 267884, 270801, 273750, 276731, 279744, 282791, 285870, 288983, 292130,
    295311, 298527, 301777, 305063, 308385, 311744, 315138, 318570, 322039, 325546, 329091,
    332674, 336297, 339959, 343661, 347403, 351186, 355010, 358876, 362784, 366734, 370728,
    374765, 378845, 382971, 387141, 391357, 395618, 399926, 404281, 408684, 413134, 417633,
    422180, 426778, 431425, 436123, 440872, 445673, 450526, 455432, 460391, 465404, 470472,
    475595, 480774, 486010, 491302, 496652, 502060, 507527, 513054, 518640, 524288>>
(* 2^(u/10^6) times 2^18, for u <= 0, linear between 64ths *)
Exp2(u) ==
  LET q == -(u \div 1000000)
      r == u % 1000000
      i == (r * 64) \div 1000000
      f == ((r * 64) % 1000000) \div 1000
      v == Exp2Table[i + 1] + ((Exp2Table[i + 2] - Exp2Table[i + 1]) * f) \div 1000
  IN  IF q > 19 THEN 0 ELSE v \div Pow(2, q)

Dot(a, b) == SumSeq([i \in DOMAIN a |-> a[i] * b[i]])
Lin(M, b, x) == Force([o \in DOMAIN M |-> Dot(M[o], x) + b[o]])
Plus(a, b) == Force([i \in DOMAIN a |-> a[i] + b[i]])
Zeros(n) == [i \in 1 .. n |-> 0]
Part(x, h, d) == SubSeq(x, (h - 1) * d + 1, h * d)           \* slice of head h
Unit == 1000000

(* ---- the two rules ---- *)
(* unnormalised weights; m[k] = 1 masks position k *)
SoftWeights(s, m) ==
  LET seen == {k \in DOMAIN s : m[k] = 0}
      top == CHOOSE v \in {s[k] : k \in seen} : \A k \in seen : s[k] <= v
  IN  Force([k \in DOMAIN s |-> IF m[k] = 1 THEN 0 ELSE Exp2(s[k] - top)])
(* sigmoid of whole scores *)
SigWeights(s) ==
  Force([k \in DOMAIN s |-> LET i == s[k] \div Unit IN
     IF i >= 0 THEN ScaleBits(Pow(2, i), 1 + Pow(2, i), 18) ELSE ScaleBits(1, 1 + Pow(2, -i), 18)])
AttnOf(w) == LET t == SumSeq(w) IN Force([k \in DOMAIN w |-> ScaleBits(w[k], t, 16)])
(* weighted sum of the rows of v, times 2^10 *)
ContextOf(w, v) ==
  LET c == IF Len(w) > 12 THEN Force([k \in DOMAIN w |-> w[k] \div 4]) ELSE w     \* room for long sums
      t == SumSeq(c) IN
  Force([d \in DOMAIN v[1] |-> ScaleBits(SumSeq([k \in DOMAIN c |-> c[k] * v[k][d]]), t, 10)])

(* ---- scores ---- *)
(* one dimensional convolution with kernel 3 and zero padding: x[c][t] *)
Conv3(W, b, x) ==
  Force([o \in DOMAIN W |-> Force([t \in DOMAIN x[1] |->
     b[o] + SumSeq([c \in DOMAIN x |-> SumSeq([j \in 1 .. 3 |->
        IF t + j - 2 >= 1 /\ t + j - 2 <= Len(x[c]) THEN W[o][c][j] * x[c][t + j - 2] ELSE 0])])])])
Column(x, t) == [c \in DOMAIN x |-> x[c][t]]
(* score of a tanh unit whose argument is far from zero or exactly zero *)
TanhScore(w, b, pre) == Unit * (b + SumSeq([d \in DOMAIN pre |-> w[d] * Sign(pre[d])]))
(* the same with an inner tanh (-1, 0, 1) that matters where pre is zero *)
TanhScore2(w, b, pre, inner) ==
  Unit * b + SumSeq([d \in DOMAIN pre |->
     w[d] * (IF pre[d] # 0 THEN Unit * Sign(pre[d]) ELSE 761594 * Sign(inner[d]))])
(* shift of the relative position scores, P[i][j] of q x k *)
Shifted(P, i, j) ==
  LET q == Len(P)
      k == Len(P[1])
      z == (i - 1) * k + (j - 1) + q
      row == z \div (k + 1)
      col == z % (k + 1)
  IN  IF col = 0 THEN 0 ELSE P[row + 1][col]

(* ---- the variants: sets of rows [w |-> weights, v |-> values] per head    *)
(* and query, for one sample ---- *)
NoMask(n) == Zeros(n)
MaskRow(s, i) == IF s.mask = <<>> THEN NoMask(Len(s.K))
                 ELSE IF Len(s.mask) = 1 THEN s.mask[1] ELSE s.mask[i]
Row(e, s, h, i) ==
  CASE e.kind = "sdp" ->
         [w |-> SoftWeights([k \in DOMAIN s.K |-> Unit * Dot(s.Q[i], s.K[k])], MaskRow(s, i)), v |-> s.V]
    [] e.kind = "dot" ->
         [w |-> SoftWeights([k \in DOMAIN s.V |-> Unit * Dot(s.Q[i], s.V[k])], NoMask(Len(s.V))), v |-> s.V]
    [] e.kind = "mha" ->
         LET q == Part(Lin(e.Wq, e.bq, s.Q[i]), h, e.dh)
         IN  [w |-> SoftWeights([k \in DOMAIN s.K |-> Unit * Dot(q, Part(Lin(e.Wk, e.bk, s.K[k]), h, e.dh))],
                                MaskRow(s, i)),
              v |-> [k \in DOMAIN s.V |-> Part(Lin(e.Wv, e.bv, s.V[k]), h, e.dh)]]
    [] e.kind = "rel" ->
         LET q(j) == Part(Lin(e.Wq, e.bq, s.Q[j]), h, e.dh)
             P == Force([j \in DOMAIN s.Q |-> Force([k \in DOMAIN s.P |->
                    Dot(Plus(q(j), e.vb[h]), Part(Lin(e.Wp, Zeros(Len(e.Wp)), s.P[k]), h, e.dh))])])
         IN  [w |-> SoftWeights([k \in DOMAIN s.K |-> Unit *
                        (Dot(Plus(q(i), e.ub[h]), Part(Lin(e.Wk, e.bk, s.K[k]), h, e.dh)) + Shifted(P, i, k))],
                        MaskRow(s, i)),
              v |-> [k \in DOMAIN s.V |-> Part(Lin(e.Wv, e.bv, s.V[k]), h, e.dh)]]
    [] e.kind = "add" ->
         LET q == Lin(e.Wq, e.b, s.Q[1])
         IN  [w |-> SoftWeights([k \in DOMAIN s.K |->
                        TanhScore(e.ws, e.bs, Plus(q, Lin(e.Wk, Zeros(Len(q)), s.K[k])))], NoMask(Len(s.K))),
              v |-> s.V]
    [] e.kind = "loc" ->
         LET q == Lin(e.Wq, e.b, s.Q[1])
             c == Conv3(e.Wc, e.bc, s.L)
             sc == [k \in DOMAIN s.V |->
                      TanhScore(e.ws, e.bs, Plus(Plus(q, Lin(e.Wv, Zeros(Len(q)), s.V[k])), Column(c, k)))]
         IN  [w |-> IF e.smooth THEN SigWeights(sc) ELSE SoftWeights(sc, NoMask(Len(sc))), v |-> s.V]
    [] e.kind = "mhl" ->
         LET c == Conv3(e.Wc, e.bc, s.L)
             q == Plus(Part(Lin(e.Wq, Zeros(Len(e.Wq)), s.Q[1]), h, e.dh), e.b)
             v == Force([k \in DOMAIN s.V |-> Part(Lin(e.Wv, Zeros(Len(e.Wv)), s.V[k]), h, e.dh)])
         IN  [w |-> SoftWeights([k \in DOMAIN s.V |->
                        TanhScore2(e.ws, e.bs, Plus(q, v[k]), Lin(e.Wl, Zeros(e.dh), Column(c, k)))], NoMask(Len(v))),
              v |-> v]
    [] e.kind = "cust" ->
         LET q == Part(Lin(e.Wq, e.bq, s.Q[i]), h, e.dh)
             c == Conv3(e.Wc, e.bc, <<s.L[h]>>)
             v == Force([k \in DOMAIN s.V |->
                    Plus(Part(Lin(e.Wv, e.b, s.V[k]), h, e.dh), Lin(e.Wl, Zeros(e.dh), Column(c, k)))])
         IN  [w |-> SoftWeights([k \in DOMAIN s.V |-> Unit * Dot(q, v[k])], NoMask(Len(v))), v |-> v]
=============================================================================
