---------------------------- MODULE TraceLayers -----------------------------
(* Validates a recorded history of the real library against Layers.         *)
(* Every line of the trace is one public call with its observed result; the *)
(* verdict is total: all failing clauses are collected with their line.     *)
(* Clauses beginning with "H:" blame the harness, not the library.          *)
EXTENDS Layers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad, done
vars == <<l, heap, bad, done>>

(* ---- clauses ---- *)
If(c, name) == IF c THEN <<>> ELSE <<name>>
TolOK(e) == e.tol >= 0 /\ (e.tol <= 2 \/ 50 * e.tol <= e.sc)
AnyNear(S, f, y, tol) == \E v \in S : Near(v * f, y, tol)

Shape2(Y, a, b) == Len(Y) = a /\ \A k \in DOMAIN Y : Len(Y[k]) = b

FwdOK(L, e) ==
  LET f == e.sc \div OutDen(L, e.D) IN
  \A b \in DOMAIN e.X : \A o \in 1 .. L.out :
     AnyNear(OutVals(L, o, [x |-> e.X[b], d |-> e.D]), f, e.Y[b][o], e.tol)

ChkFwd(e) ==
  LET L == heap[e.id] IN
  IF ~(L.known /\ PeriodOK(L, e.D) /\ e.sc % OutDen(L, e.D) = 0 /\ TolOK(e)) THEN <<"H:fwd">>
  ELSE IF ~Shape2(e.Y, Len(e.X), L.out) THEN <<"output shape">>
  ELSE If(FwdOK(L, e), "output is the sum (product) of the link functions")

ChkNFwd(e) ==
  LET res == [b \in DOMAIN e.X |-> NetRows(heap, heap[e.id].stages, Normal([x |-> e.X[b], d |-> e.D]))] IN
  IF ~(e.tol >= 2 /\ 50 * e.tol <= Pow(2, e.k)) THEN <<"H:nfwd">>
  ELSE IF ~(Len(e.Y) = Len(e.X) /\ \A b \in DOMAIN res : \A r \in res[b] : Len(e.Y[b]) = Len(r.x))
       THEN <<"network output shape">>
  ELSE If(\A b \in DOMAIN res : \E r \in res[b] :
            \A o \in DOMAIN r.x : Near(ScaleBits(r.x[o], r.d, e.k), e.Y[b][o], e.tol),
          "network output is the composition of its layers")

ChkNew(e) == If(e.w = <<e.out, e.in, WeightsPerLink(e.kind, e.n, e.s)>>, "weights per link")

ChkSet(e) ==
  LET L == heap[e.id] IN
  If(/\ Len(e.f) = L.out
     /\ \A o \in 1 .. L.out : /\ Len(e.f[o]) = L.in
                              /\ \A i \in 1 .. L.in : Holds(L.kind, L.n, L.s, e.f[o][i]),
     "H:set")

(* segment lookup: either neighbour is right on an edge *)
ChkSeg(e) ==
  LET L == heap[e.id] IN
  IF ~PeriodOK(L, e.D) \/ Len(e.S) # Len(e.X) THEN <<"H:seg">>
  ELSE If(\A k \in DOMAIN e.X : e.S[k] \in Segs(Pos(L, e.X[k], e.D), Units(L, e.D), L.s),
          "segment lookup")
(* local coordinate of X in segment e.k[j]:  half * T / H *)
ChkLoc(e) ==
  LET L == heap[e.id]
      U == Units(L, e.D)
      H == LocH(U, L.s)
  IN IF e.sc % (L.hd * H) # 0 \/ ~TolOK(e) THEN <<"H:loc">>
     ELSE If(\A j \in DOMAIN e.X :
               Near(e.Y[j], L.hn * LocT(e.X[j] * L.hd, U, L.s, e.k[j]) * (e.sc \div (L.hd * H)), e.tol),
             "local coordinate")
(* global coordinate of local position half*T/e.H in segment e.k[j] *)
ChkGlob(e) ==
  LET L == heap[e.id] IN
  IF e.sc % (L.hd * L.s * e.H) # 0 \/ ~TolOK(e) THEN <<"H:glob">>
  ELSE If(\A j \in DOMAIN e.T :
            Near(e.Y[j], L.hn * ((2 * e.k[j] + 1 - L.s) * e.H + e.T[j]) * (e.sc \div (L.hd * L.s * e.H)), e.tol),
          "global coordinate")

(* weight gradient, tested against a direction g (a function the layer can   *)
(* hold): <grad, weights of g> = sum of cotangent times g(x), in a product   *)
(* layer times the other factors 1 + f                                       *)
Others(L, e, b, o, i) ==
  IF L.comb = "sum" THEN 1
  ELSE ProdSeq([j \in 1 .. L.in |-> IF j = i THEN 1
         ELSE LinkDen(L, e.D) + (CHOOSE v \in LinkVals(L, o, j, e.X[b][j], e.D) : TRUE)])
OthersDen(L, e) == IF L.comb = "sum" THEN 1 ELSE Pow(LinkDen(L, e.D), L.in - 1)
OffEdges(L, e) == \A b \in DOMAIN e.X : \A i \in 1 .. L.in :
                    ~OnEdge(Pos(L, e.X[b][i], e.D), Units(L, e.D), FuncSegs(L))
GradLink(L, e, o, i) ==
  LET G == [L EXCEPT !.f = e.g, !.deg = LayerDeg(e.g), !.d = e.gd] IN
  ChoiceFold(Add, 0, [b \in DOMAIN e.X |->
     {e.cot[b][o] * v * Others(L, e, b, o, i) :
        v \in FVals(e.g[o][i], Pos(L, e.X[b][i], e.D), Units(L, e.D), G.deg)}])
GradDen(L, e) == e.gd * Pow(LocH(Units(L, e.D), Len(e.g[1][1])), LayerDeg(e.g)) * OthersDen(L, e)
ActiveFor(L, e, i) ==
  UNION {ActiveWeights(L.kind, L.n, k) :
           k \in UNION {Segs(Pos(L, e.X[b][i], e.D), Units(L, e.D), L.s) : b \in DOMAIN e.X}}
ChkGrad(e) ==
  LET L == heap[e.id] IN
  IF ~(PeriodOK(L, e.D) /\ e.sc % GradDen(L, e) = 0 /\ TolOK(e)
       /\ (L.comb = "prod" => L.known /\ OffEdges(L, e))) THEN <<"H:grad">>
  ELSE IF ~Shape2(e.Y, L.out, L.in) THEN <<"gradient shape">>
  ELSE LET f == e.sc \div GradDen(L, e) IN
       If(\A o \in 1 .. L.out : \A i \in 1 .. L.in :
            AnyNear(GradLink(L, e, o, i), f, e.Y[o][i], e.tol),
          "weight gradient is that of the interpolant")
       \o If(\A z \in 1 .. Len(e.nz) : e.nz[z][3] \in ActiveFor(L, e, e.nz[z][2] + 1),
             "weights outside the active segments have zero gradient")
(* input gradient: sum over outputs of cotangent times slope (times the      *)
(* other factors); dt/dx = s/half, reversed on the mirrored half of a period *)
ChkXGrad(e) ==
  LET L == heap[e.id]
      U == Units(L, e.D)
      P == Period(L, e.D)
      fs == FuncSegs(L)
      N == Max2(L.deg - 1, 0)
      den == L.d * Pow(LocH(U, fs), N) * L.hn * OthersDen(L, e)
      Val(b, i) == SumSeq([o \in 1 .. L.out |->
                     e.cot[b][o] * Others(L, e, b, o, i)
                     * (CHOOSE v \in FDerivs(L.f[o][i], Pos(L, e.X[b][i], e.D), U, N) : TRUE)])
                   * fs * L.hd * FoldSlope(e.X[b][i] * L.hd, P)
  IN IF ~(L.known /\ PeriodOK(L, e.D) /\ e.sc % den = 0 /\ TolOK(e) /\ OffEdges(L, e)
          /\ \A b \in DOMAIN e.X : \A i \in 1 .. L.in : ~AtMirror(e.X[b][i] * L.hd, P))
     THEN <<"H:xgrad">>
     ELSE IF ~Shape2(e.Y, Len(e.X), L.in) THEN <<"input gradient shape">>
     ELSE If(\A b \in DOMAIN e.X : \A i \in 1 .. L.in : Near(Val(b, i) * (e.sc \div den), e.Y[b][i], e.tol),
             "input gradient is the slope of the interpolant")
(* output with one weight changed: rows not using that weight are unaffected *)
ChkPoke(e) ==
  LET L == heap[e.id]
      Uses(b) == \E k \in Segs(Pos(L, e.X[b][e.i + 1], e.D), Units(L, e.D), L.s) :
                    e.k \in ActiveWeights(L.kind, L.n, k)
      keep == [e EXCEPT !.X = SelectSeq(e.X, LAMBDA x : TRUE)]
      f == e.sc \div OutDen(L, e.D)
  IN IF ~(L.known /\ PeriodOK(L, e.D) /\ e.sc % OutDen(L, e.D) = 0 /\ TolOK(e)) THEN <<"H:poke">>
     ELSE IF ~Shape2(e.Y, Len(e.X), L.out) THEN <<"output shape">>
     ELSE If(\A b \in DOMAIN e.X : \A o \in 1 .. L.out :
               (o = e.o + 1 /\ Uses(b)) \/
               AnyNear(OutVals(L, o, [x |-> e.X[b], d |-> e.D]), f, e.Y[b][o], e.tol),
             "a weight outside the active segment has no influence")

(* inputs placed on nodes: the output is the sum of the weights there *)
ChkNode(e) ==
  LET L == heap[e.id]
      Vals(b, o) == ChoiceFold(Add, 0, [i \in 1 .. L.in |->
          {e.W[o][i][q + 1] : q \in NodeWeights(L.kind, L.n, L.s, e.J[b][i][1], e.J[b][i][2], e.J[b][i][3])}])
  IN IF ~(L.comb = "sum" /\ e.tol >= 2 /\ 50 * e.tol <= e.sc) THEN <<"H:node">>
     ELSE IF ~Shape2(e.Y, Len(e.J), L.out) THEN <<"output shape">>
     ELSE If(\A b \in DOMAIN e.J : \A o \in 1 .. L.out : AnyNear(Vals(b, o), 1, e.Y[b][o], e.tol),
             "the value at a node is its own segment's weight")
(* weights before (W) and after (V) smoothing by fa/fb *)
ChkSmoothW(e) ==
  LET L == heap[e.id]
      fac == e.fb * 2
      Want(w, q) ==                      \* q 0-based, over fac
        LET k == q \div L.n
            m == q % L.n IN
        IF m = L.n - 1 /\ k < L.s - 1 THEN fac * w[q + 1] - e.fa * (w[q + 1] - w[q + 2])
        ELSE IF m = 0 /\ k > 0 THEN fac * w[q + 1] + e.fa * (w[q] - w[q + 1])
        ELSE fac * w[q + 1]
  IN IF ~(L.kind = "disc" /\ L.n >= 2 /\ e.tol >= 2 /\ 50 * e.tol <= e.sc) THEN <<"H:smoothw">>
     ELSE If(\A o \in 1 .. L.out : \A i \in 1 .. L.in : \A q \in 0 .. L.n * L.s - 1 :
               Near(e.V[o][i][q + 1] * fac, Want(e.W[o][i], q), e.tol * fac),
             "smoothing moves exactly the paired edge values by the factor")
(* weights that must not have moved at all *)
ChkSame(e) == If(e.A = e.B, e.what)
ChkNear(e) ==
  IF ~(e.tol >= 2 /\ 50 * e.tol <= e.sc) THEN <<"H:near">>
  ELSE If(/\ Len(e.A) = Len(e.B)
          /\ \A b \in DOMAIN e.A : /\ Len(e.A[b]) = Len(e.B[b])
                                   /\ \A o \in DOMAIN e.A[b] : Near(e.A[b][o], e.B[b][o], e.tol), e.what)
ChkProd(e) ==
  LET den == ProductDen(e.wd, e.D, Len(e.X[1]), e.bd, e.ad)
      X(b) == [i \in DOMAIN e.X[b] |-> Fold(e.X[b][i], e.P)] IN
  IF ~(TolOK(e) /\ e.sc % den = 0) THEN <<"H:prod">>
  ELSE IF ~Shape2(e.Y, Len(e.X), Len(e.W)) THEN <<"output shape">>
  ELSE If(\A b \in DOMAIN e.X : \A o \in DOMAIN e.W :
            Near(ProductUnit(e.W[o], e.wd, X(b), e.D, e.b[o], e.bd, e.an, e.ad) * (e.sc \div den), e.Y[b][o], e.tol),
          "product unit")

ChkFold(e) ==
  IF e.P % 2 # 0 \/ e.sc % e.D # 0 \/ ~TolOK(e) \/ Len(e.Y) # Len(e.X) THEN <<"H:fold">>
  ELSE If(\A k \in DOMAIN e.X : Near(e.Y[k], Fold(e.X[k], e.P) * (e.sc \div e.D), e.tol), "mirror fold")

ChkPRef(e) == If(PRefineOK(heap[e.a], heap[e.b]), "H:prefine")
              \o If(~PRefineRejected(heap[e.a], heap[e.b]), "mismatched segments must be rejected")
(* nodal agreement on a mesh that cannot hold the function: edges of target *)
ChkHRef(e) == If(HRefineOK(heap[e.a], heap[e.b]), "H:hrefine")
ChkHRefNode(e) ==
  LET A == heap[e.a]
      B == heap[e.b]
      f == e.sc \div OutDen(A, e.D)
  IN IF ~(SameShape(A, B) /\ A.comb = "sum" /\ e.sc % OutDen(A, e.D) = 0 /\ TolOK(e)
          /\ \A b \in DOMAIN e.X : \A i \in 1 .. A.in :
               LET X == e.X[b][i] * A.hd
                   U == Units(A, e.D)
                   s2 == B.s IN
               \/ (s2 * (X + U)) % (2 * U) = 0
               \/ B.n % 2 = 1 /\ (2 * s2 * (X + U)) % (2 * U) = 0)
     THEN <<"H:hnode">>
     ELSE IF ~Shape2(e.Y, Len(e.X), B.out) THEN <<"output shape">>
     ELSE If(FwdOK(A, e), "refined layer agrees with the source at its nodes")
ChkErr(e) ==
  CASE e.op = "prefine" -> If(PRefineRejected(heap[e.a], heap[e.b]), "p-refinement raised: " \o e.type)
    [] e.op = "hrefine" -> If(HRefineRejected(heap[e.a], heap[e.b]), "refinement raised: " \o e.type)
    [] OTHER -> <<e.op \o " raised: " \o e.type>>
ChkSmooth(e) == If(SmoothOK(heap[e.id]), "H:smooth")

Check(e) ==
  CASE e.e = "new"     -> ChkNew(e)
    [] e.e = "set"     -> ChkSet(e)
    [] e.e = "fwd"     -> ChkFwd(e)
    [] e.e = "nfwd"    -> ChkNFwd(e)
    [] e.e = "seg"     -> ChkSeg(e)
    [] e.e = "loc"     -> ChkLoc(e)
    [] e.e = "glob"    -> ChkGlob(e)
    [] e.e = "grad"    -> ChkGrad(e)
    [] e.e = "xgrad"   -> ChkXGrad(e)
    [] e.e = "poke"    -> ChkPoke(e)
    [] e.e = "fold"    -> ChkFold(e)
    [] e.e = "prefine" -> ChkPRef(e)
    [] e.e = "hrefine" -> ChkHRef(e)
    [] e.e = "hnode"   -> ChkHRefNode(e)
    [] e.e = "smooth"  -> ChkSmooth(e)
    [] e.e = "node"    -> ChkNode(e)
    [] e.e = "smoothw" -> ChkSmoothW(e)
    [] e.e = "same"    -> ChkSame(e)
    [] e.e = "near"    -> ChkNear(e)
    [] e.e = "prod"    -> ChkProd(e)
    [] e.e = "err"     -> ChkErr(e)
    [] e.e = "fact"    -> If(e.ok, e.what)
    [] e.e \in {"reset", "net"} -> <<>>
    [] OTHER -> <<"H:unknown event">>

(* ---- effects ---- *)
Put(h, id, o) == (id :> o) @@ h
Effect(e) ==
  CASE e.e = "reset"   -> (0 :> [t |-> "nil"])
    [] e.e = "new"     -> Put(heap, e.id, NewLayer(e.kind, e.comb, e.n, e.s, e.in, e.out, e.hn, e.hd, e.pn, e.pd))
    [] e.e = "set"     -> Put(heap, e.id, SetFunction(heap[e.id], e.f, e.d))
    [] e.e = "prefine" -> Put(heap, e.b, Transfer(heap[e.a], heap[e.b]))
    [] e.e = "hrefine" -> Put(heap, e.b, Transfer(heap[e.a], heap[e.b]))
    [] e.e = "smooth"  -> Put(heap, e.id, Smooth(heap[e.id], e.fa, e.fb))
    [] e.e = "net"     -> Put(heap, e.id, [t |-> "net", stages |-> e.stages])
    [] OTHER -> heap

Init == /\ l = 1 /\ heap = (0 :> [t |-> "nil"]) /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ heap' = Effect(Trace[l])
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, heap, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
Inv == \A id \in DOMAIN heap : heap[id].t = "layer" => heap[id].deg >= 0
=============================================================================
