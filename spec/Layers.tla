------------------------------- MODULE Layers -------------------------------
(* State machine of the layer library: a heap of layers and networks, each  *)
(* denoting a function, and the operations a user applies to them.          *)
(*                                                                          *)
(* A layer is a record                                                      *)
(*   kind  "poly" | "cont" | "disc"      comb "sum" | "prod"                *)
(*   n     number of nodes per segment   s    number of segments            *)
(*   in, out  widths                                                        *)
(*   hn/hd half of the domain length     pn/pd mirror period (0/1: none)    *)
(*   f     f[o][i] = piecewise polynomial of link (o, i)                    *)
(*   d     common denominator of all coefficients                           *)
(*   deg   largest degree occurring in f                                    *)
(* f may live on a coarser mesh than s: a refined layer still denotes the   *)
(* function it was refined from.                                            *)
(*                                                                          *)
(* A network is a sequence of stages, see StageRows.                        *)
EXTENDS PiecewisePoly

(* number of weights per link *)
WeightsPerLink(kind, n, s) ==
  CASE kind = "poly" -> n
    [] kind = "cont" -> (n - 1) * s + 1
    [] kind = "disc" -> n * s

(* 0-based indices of the weights of segment k *)
ActiveWeights(kind, n, k) ==
  CASE kind = "poly" -> 0 .. n - 1
    [] kind = "cont" -> k * (n - 1) .. k * (n - 1) + n - 1
    [] kind = "disc" -> k * n .. k * n + n - 1

LayerDeg(f) == MaxSeq([o \in DOMAIN f |-> MaxSeq([i \in DOMAIN f[o] |-> FDegree(f[o][i])])])
FuncSegs(L) == Len(L.f[1][1])

(* can a layer (kind, n, s) hold the function g of denominator irrelevant? *)
Holds(kind, n, s, g) ==
  /\ FDegree(g) < n
  /\ s % Len(g) = 0
  /\ kind = "poly" => Len(g) = 1
  /\ kind = "cont" => FCont(g)

NewLayer(kind, comb, n, s, in, out, hn, hd, pn, pd) ==
  [t |-> "layer", kind |-> kind, comb |-> comb, n |-> n, s |-> s, in |-> in, out |-> out,
   hn |-> hn, hd |-> hd, pn |-> pn, pd |-> pd, d |-> 1, deg |-> 0,
   f |-> [o \in 1 .. out |-> [i \in 1 .. in |-> <<<<0>>>>]], known |-> FALSE]

TrimAll(f) == Force([o \in DOMAIN f |-> Force([i \in DOMAIN f[o] |-> FTrim(f[o][i])])])
SetFunction(L, f, d) == [L EXCEPT !.f = TrimAll(f), !.d = d, !.deg = LayerDeg(f), !.known = TRUE]
(* same function, multiplied by a/b *)
ScaleFunction(L, a, b) ==
  [L EXCEPT !.f = [o \in DOMAIN L.f |-> [i \in DOMAIN L.f[o] |->
                     [k \in DOMAIN L.f[o][i] |-> PScale(L.f[o][i][k], a)]]],
            !.d = L.d * b]

(* ------------------------------------------------------------------------ *)
(* Evaluation.  A row is [x |-> numerators, d |-> denominator].             *)
Units(L, D)   == D * L.hn
Period(L, D)  == IF L.pn = 0 THEN 0 ELSE (L.pn * L.hd * D) \div L.pd
PeriodOK(L, D) == L.pn = 0 \/ ((L.pn * L.hd * D) % L.pd = 0 /\ Period(L, D) % 2 = 0)
Pos(L, X, D)  == Fold(X * L.hd, Period(L, D))
LinkDen(L, D) == L.d * Pow(LocH(Units(L, D), FuncSegs(L)), L.deg)
LinkVals(L, o, i, X, D) == FVals(L.f[o][i], Pos(L, X, D), Units(L, D), L.deg)
OutDen(L, D)  == IF L.comb = "sum" THEN LinkDen(L, D) ELSE Pow(LinkDen(L, D), L.in)
OutVals(L, o, row) ==
  LET den == LinkDen(L, row.d)
      per == [i \in 1 .. L.in |-> LinkVals(L, o, i, row.x[i], row.d)]
  IN  IF L.comb = "sum" THEN ChoiceFold(Add, 0, per)
      ELSE {p - Pow(den, L.in) : p \in ChoiceFold(LAMBDA a, v : a * (den + v), 1, per)}

(* all sequences with q[o] in S[o] *)
Rows(S) == FoldLeft(LAMBDA acc, C : {Append(a, v) : a \in acc, v \in C}, {<<>>}, S)

Normal(row) == LET g == FoldLeft(GCD, row.d, row.x)
               IN  [x |-> [i \in DOMAIN row.x |-> row.x[i] \div g], d |-> row.d \div g]
LayerRows(L, row) ==
  {Normal([x |-> q, d |-> OutDen(L, row.d)]) : q \in Rows([o \in 1 .. L.out |-> OutVals(L, o, row)])}

(* ------------------------------------------------------------------------ *)
(* Networks                                                                 *)
Common(rows) == FoldLeft(LAMBDA a, r : LCM(a, r.d), 1, rows)
RowAt(r, d) == [x |-> [i \in DOMAIN r.x |-> r.x[i] * (d \div r.d)], d |-> d]
AddRows(a, b) == LET d == LCM(a.d, b.d) IN
  [x |-> [i \in DOMAIN a.x |-> RowAt(a, d).x[i] + RowAt(b, d).x[i]], d |-> d]
MulRows(a, b) == [x |-> [i \in DOMAIN a.x |-> a.x[i] * b.x[i]], d |-> a.d * b.d]
LinRow(st, row) ==                      \* integer matrix over st.d, bias over st.d
  [x |-> [o \in DOMAIN st.m |-> SumSeq([i \in DOMAIN row.x |-> st.m[o][i] * row.x[i]])
                                + st.b[o] * row.d],
   d |-> row.d * st.d]

RECURSIVE NetRows(_, _, _), StageRows(_, _, _)
(* rows reachable from row through the stages; h is the heap *)
NetRows(h, stages, row) ==
  FoldLeft(LAMBDA S, st : UNION {StageRows(h, st, r) : r \in S}, {row}, stages)
StageRows(h, st, row) ==
  CASE st.op = "layer"  -> LayerRows(h[st.id], row)
    [] st.op = "halve"  -> {[row EXCEPT !.d = 2 * row.d]}
    [] st.op = "relu"   -> {[row EXCEPT !.x = [i \in DOMAIN row.x |-> Max2(row.x[i], 0)]]}
    [] st.op = "neg"    -> {[row EXCEPT !.x = [i \in DOMAIN row.x |-> -row.x[i]]]}
    [] st.op = "inc"    -> {[row EXCEPT !.x = [i \in DOMAIN row.x |-> row.x[i] + row.d]]}
    [] st.op = "linear" -> {Normal(LinRow(st, row))}
    [] st.op = "switch" ->              \* elementwise product of the branches
         FoldLeft(LAMBDA S, b : {Normal(MulRows(x, y)) : x \in S, y \in LayerRows(h[b], row)},
                  LayerRows(h[st.ids[1]], row), Tail(st.ids))
    [] st.op = "sum"    ->              \* sum of sub-networks
         FoldLeft(LAMBDA S, b : {Normal(AddRows(x, y)) : x \in S, y \in NetRows(h, b, row)},
                  NetRows(h, st.nets[1], row), Tail(st.nets))

(* ------------------------------------------------------------------------ *)
(* Weights: the value of a link at node m (0-based) of segment k is weight   *)
WeightAt(kind, n, k, m) ==
  CASE kind = "poly" -> m
    [] kind = "cont" -> k * (n - 1) + m
    [] kind = "disc" -> k * n + m
(* weights that may be read at node m of segment k when approached from     *)
(* side -1 (left), 0 (exactly on it) or 1 (right)                            *)
NodeWeights(kind, n, s, k, m, side) ==
  LET own  == WeightAt(kind, n, k, m)
      prev == IF n > 1 /\ m = 0 /\ k > 0 THEN {WeightAt(kind, n, k - 1, n - 1)} ELSE {}
      next == IF n > 1 /\ m = n - 1 /\ k < s - 1 THEN {WeightAt(kind, n, k + 1, 0)} ELSE {}
  IN  CASE side = 0  -> {own} \cup prev \cup next
        [] side = -1 -> IF prev # {} THEN prev ELSE {own}
        [] side = 1  -> IF next # {} THEN next ELSE {own}
(* the plain product unit: prod(1 + w x) - (1 - alpha) sum(w x) - 1 + bias   *)
(* over (wd*D)^in * ad                                                       *)
ProductUnit(w, wd, x, D, bias, bd, an, ad) ==
  LET p == [i \in DOMAIN x |-> w[i] * x[i]]
      q == wd * D
      k == Len(x)
      full == Pow(q, k)
  IN  (ProdSeq([i \in DOMAIN x |-> q + p[i]]) * ad
       - (ad - an) * SumSeq(p) * Pow(q, k - 1) - full * ad) * bd + bias * full * ad
ProductDen(wd, D, k, bd, ad) == Pow(wd * D, k) * ad * bd

(* ------------------------------------------------------------------------ *)
(* Operations                                                               *)
SameShape(A, B) == A.in = B.in /\ A.out = B.out /\ A.hn * B.hd = B.hn * A.hd
(* raising (or losslessly lowering) the order at equal segments *)
PRefineOK(A, B) == /\ SameShape(A, B) /\ A.s = B.s /\ A.kind = B.kind
                   /\ \A o \in DOMAIN A.f : \A i \in DOMAIN A.f[o] : Holds(B.kind, B.n, B.s, A.f[o][i])
PRefineRejected(A, B) == A.s # B.s
(* moving to another mesh and order *)
HRefineOK(A, B) == /\ SameShape(A, B) /\ A.kind = "cont" /\ B.kind = "cont"
                   /\ \A o \in DOMAIN A.f : \A i \in DOMAIN A.f[o] : Holds(B.kind, B.n, B.s, A.f[o][i])
HRefineRejected(A, B) == A.kind = "disc"
Transfer(A, B) == [B EXCEPT !.f = A.f, !.d = A.d, !.deg = A.deg, !.known = A.known]

(* smoothing by a/b: jumps shrink to (1 - a/b), midpoints stay *)
SmoothLink(g, n, a, b) ==
  LET s == Len(g)
      k2 == 4 * b * (n - 1)             \* new denominator factor
      jump(k) == PAtPlus1(g[k]) - PAtMinus1(g[k + 1])
      Upd(k) ==
        LET base == PScale(g[k], k2)
            lft  == IF k = 1 THEN <<0>> ELSE PScale(FirstCard(n), a * jump(k - 1))
            rgt  == IF k = s THEN <<0>> ELSE PScale(LastCard(n), -(a * jump(k)))
        IN  PAdd(base, PAdd(lft, rgt))
  IN  Force([k \in 1 .. s |-> Upd(k)])
(* the function has to be written on the layer's own mesh for that *)
SmoothOK(L) == L.kind = "disc" /\ L.n >= 2 /\ FuncSegs(L) = L.s
Smooth(L, a, b) ==
  IF L.s = 1 THEN L
  ELSE LET f2 == TrimAll([o \in DOMAIN L.f |-> [i \in DOMAIN L.f[o] |-> SmoothLink(L.f[o][i], L.n, a, b)]])
       IN  [L EXCEPT !.f = f2, !.d = L.d * 4 * b * (L.n - 1), !.deg = LayerDeg(f2)]

WellFormed(L) ==
  L.known => \A o \in 1 .. L.out : \A i \in 1 .. L.in : Holds(L.kind, L.n, L.s, L.f[o][i])
=============================================================================
