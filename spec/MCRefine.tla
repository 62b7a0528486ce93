------------------------------ MODULE MCRefine ------------------------------
(* The weights themselves.  For n = 2, 3 and 4 the Chebyshev-Lobatto nodes    *)
(* are rational (-1, -1/2, 0, 1/2, 1), so a link can be modelled by its        *)
(* weights, exactly: evaluation is Lagrange interpolation of the weights of    *)
(* the segment, refinement rewrites the weights as values at the new nodes,    *)
(* smoothing moves the paired end weights.  The invariants say that this       *)
(* mechanism implements the function level specification (PiecewisePoly,       *)
(* Layers) which the recorded traces are checked against.  Behaviours are      *)
(* printed and replayed into real layers, weight by weight.                    *)
EXTENDS Layers, Json
CONSTANTS Kinds, Orders, MaxN, Segments, Ratios, Values, Factors, Depth, MaxSegs
SomeValues == {0, 1, -2}
SomeFactors == {<<1, 2>>, <<1, 1>>, <<3, 4>>}
TwoValues == {1, -2}
NoFactors == {}
MoreFactors == {<<1, 2>>, <<1, 1>>, <<3, 4>>, <<-1, 2>>, <<0, 1>>, <<3, 2>>}
VARIABLES L, F, hist
vars == <<L, F, hist>>

(* nodes in halves *)
Nodes(n) == CASE n = 2 -> <<-2, 2>> [] n = 3 -> <<-2, 0, 2>> [] n = 4 -> <<-2, -1, 1, 2>>
NodeDen(n) == CASE n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 12
Span(kind, n) == IF kind = "cont" THEN n - 1 ELSE n
NumW(kind, n, s) == IF kind = "cont" THEN (n - 1) * s + 1 ELSE n * s
(* weight of node m (from 1) of segment k (from 0) *)
At(V, k, m) == V.w[k * Span(V.kind, V.n) + m]
(* cardinal polynomial m at t = T/H, times NodeDen(n) H^(n-1) *)
Card(n, m, T, H) ==
  LET X == Nodes(n)
      others == SelectSeq([j \in 1 .. n |-> j], LAMBDA j : j # m)
      num == ProdSeq([q \in DOMAIN others |-> 2 * T - X[others[q]] * H])
      den == ProdSeq([q \in DOMAIN others |-> X[m] - X[others[q]]])
  IN  num * (NodeDen(n) \div den)
(* value in segment k at t = T/H over ValDen(V, H) *)
Val(V, k, T, H) == SumSeq([m \in 1 .. V.n |-> At(V, k, m) * Card(V.n, m, T, H)])
ValDen(V, H) == V.d * NodeDen(V.n) * Pow(H, V.n - 1)
(* values at X (of U units per half domain) *)
WVals(V, X, U) == {Val(V, k, LocT(X, U, V.s, k), LocH(U, V.s)) : k \in Segs(X, U, V.s)}

Reduce(V) == LET g == FoldLeft(GCD, V.d, V.w) IN
  [V EXCEPT !.w = [i \in DOMAIN V.w |-> V.w[i] \div g], !.d = V.d \div g]

(* rewrite the weights for order n2 and s2 segments: values at the new nodes  *)
Rewrite(V, n2, s2) ==
  LET st2 == Span(V.kind, n2)
      U == 4 * V.s * s2
      H == LocH(U, V.s)
      pos(k, m) == (U \div s2) * (2 * k + 1) - U + ((U \div (2 * s2)) * Nodes(n2)[m])
      (* the source segment of a target node: for discontinuous layers the one *)
      (* that contains the target segment                                       *)
      own(k) == (k * V.s) \div s2
      val(k, m) == Val(V, own(k), LocT(pos(k, m), U, V.s, own(k)), H)
      idx(i) == IF V.kind = "cont" THEN IF i = NumW("cont", n2, s2) THEN <<s2 - 1, n2>>
                                        ELSE <<(i - 1) \div st2, ((i - 1) % st2) + 1>>
                ELSE <<(i - 1) \div n2, ((i - 1) % n2) + 1>>
  IN  Reduce([kind |-> V.kind, n |-> n2, s |-> s2, d |-> ValDen(V, H),
              w |-> Force([i \in 1 .. NumW(V.kind, n2, s2) |-> val(idx(i)[1], idx(i)[2])])])

(* smoothing by fa / fb *)
SmoothW(V, fa, fb) ==
  LET n == V.n
      new(i) ==
        LET k == (i - 1) \div n
            m == ((i - 1) % n) + 1
        IN  IF m = n /\ k < V.s - 1 THEN 2 * fb * V.w[i] - fa * (V.w[i] - V.w[i + 1])
            ELSE IF m = 1 /\ k > 0 THEN 2 * fb * V.w[i] + fa * (V.w[i - 1] - V.w[i])
            ELSE 2 * fb * V.w[i]
  IN  Reduce([V EXCEPT !.w = Force([i \in DOMAIN V.w |-> new(i)]), !.d = 2 * fb * V.d])

(* ---- abstraction: the polynomial of each segment, monomial coefficients ---- *)
RECURSIVE PMul(_, _)
PMul(a, b) == IF Len(b) = 0 THEN <<0>>
              ELSE PAdd(PScale(a, b[1]), IF Len(b) = 1 THEN <<0>> ELSE PShift(PMul(a, SubSeq(b, 2, Len(b)))))
CardPoly(n, m) ==        \* times NodeDen(n)
  LET X == Nodes(n)
      others == SelectSeq([j \in 1 .. n |-> j], LAMBDA j : j # m)
      den == ProdSeq([q \in DOMAIN others |-> X[m] - X[others[q]]])
  IN  PScale(FoldLeft(PMul, <<1>>, [q \in DOMAIN others |-> <<-X[others[q]], 2>>]), NodeDen(n) \div den)
PolyOf(V, k) == Force(FoldLeft(PAdd, <<0>>, [m \in 1 .. V.n |-> PScale(CardPoly(V.n, m), At(V, k, m))]))
(* the layer the weights stand for, at function level *)
Abstract(V) == SetFunction(NewLayer(V.kind, "sum", V.n, V.s, 1, 1, 1, 1, 0, 1),
                           <<<<Force([k \in 1 .. V.s |-> PolyOf(V, k - 1)])>>>>, V.d * NodeDen(V.n))
Other(V) == NewLayer(V.kind, "sum", V.n, V.s, 1, 1, 1, 1, 0, 1)

(* ---- behaviours ---- *)
New(kind, n, s, w) == [kind |-> kind, n |-> n, s |-> s, d |-> 1, w |-> w]
Entry(op, a, b, V) == [op |-> op, a |-> a, b |-> b, kind |-> V.kind, n |-> V.n, s |-> V.s, w |-> V.w, d |-> V.d]
Init == \E kind \in Kinds, n \in Orders, s \in Segments :
          \E w \in [1 .. NumW(kind, n, s) -> Values] :
            LET V == New(kind, n, s, [i \in 1 .. NumW(kind, n, s) |-> w[i]]) IN
            /\ L = V
            /\ F = Abstract(V)
            /\ hist = <<Entry("new", 0, 0, V)>>
Raise == \E n2 \in L.n .. MaxN :
           LET V == Rewrite(L, n2, L.s) IN
           L' = V /\ hist' = Append(hist, Entry("raise", n2, 0, V)) /\ F' = Transfer(F, Other(V))
Split == \E n2 \in L.n .. MaxN, q \in Ratios :
           /\ L.kind = "cont" /\ L.s * q <= MaxSegs
           /\ LET V == Rewrite(L, n2, L.s * q) IN
              L' = V /\ hist' = Append(hist, Entry("split", n2, q, V)) /\ F' = Transfer(F, Other(V))
Smoothing == \E fa \in {p[1] : p \in Factors}, fb \in {p[2] : p \in Factors} :
           /\ <<fa, fb>> \in Factors /\ L.kind = "disc"
           /\ LET V == SmoothW(L, fa, fb)
              IN  L' = V /\ F' = Smooth(F, fa, fb) /\ hist' = Append(hist, Entry("smooth", fa, fb, V))
Next == Len(hist) <= Depth /\ (Raise \/ Split \/ Smoothing)
Spec == Init /\ [][Next]_vars

(* ---- invariants ---- *)
Grid == 12
Ratio(a, b) == LET g == GCD(a, b) IN <<a \div g, b \div g>>        \* b > 0
(* the weights implement the abstract function, inside and outside the domain *)
Implements ==
  LET U == Units(F, Grid)
      den == ValDen(L, LocH(U, L.s))
  IN  \A X \in -15 .. 15 :
        {Ratio(v, den) : v \in WVals(L, X, U)} = {Ratio(v, LinkDen(F, Grid)) : v \in LinkVals(F, 1, 1, X, Grid)}
(* a continuous link has one value at every edge, whatever its weights *)
Continuous == L.kind = "cont" => \A X \in -12 .. 12 : Cardinality(WVals(L, X, Grid)) = 1
(* a weight is the value at its node *)
Interpolates == \A k \in 0 .. L.s - 1 : \A m \in 1 .. L.n :
  Val(L, k, Nodes(L.n)[m], 2) * L.d = At(L, k, m) * ValDen(L, 2)
Counts == Len(L.w) = NumW(L.kind, L.n, L.s)
(* smoothing: jumps shrink by 1 - f about their midpoint, nothing else moves *)
Jump(V, k) == <<At(V, k, V.n), At(V, k + 1, 1)>>
SmoothStep == [][hist' # hist /\ hist'[Len(hist')].op = "smooth" =>
   LET e == hist'[Len(hist')] IN
   /\ \A k \in 0 .. L.s - 2 :
        LET j == Jump(L, k)
            g == Jump(L', k)
        IN  /\ (g[1] - g[2]) * L.d * e.b = (e.b - e.a) * (j[1] - j[2]) * L'.d
            /\ (g[1] + g[2]) * L.d = (j[1] + j[2]) * L'.d
   /\ \A k \in 0 .. L.s - 1 : \A m \in 1 .. L.n :
        (1 < m /\ m < L.n) \/ (k = 0 /\ m = 1) \/ (k = L.s - 1 /\ m = L.n) =>
          At(L, k, m) * L'.d = At(L', k, m) * L.d]_vars
Emit == Len(hist) = Depth + 1 => PrintT("EMIT " \o ToJson(hist))
=============================================================================
