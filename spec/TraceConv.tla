----------------------------- MODULE TraceConv ------------------------------
(* Validates recorded histories of convolutions and convolutional networks. *)
EXTENDS Conv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad, done
vars == <<l, heap, bad, done>>

If(c, name) == IF c THEN <<>> ELSE <<name>>
TolOK(e) == e.tol >= 0 /\ (e.tol <= 2 \/ 50 * e.tol <= e.sc)
Shape2(Y, a, b) == Len(Y) = a /\ \A k \in DOMAIN Y : Len(Y[k]) = b
Shape3(Y, a, b, c) == Len(Y) = a /\ \A k \in DOMAIN Y : Shape2(Y[k], b, c)

(* weights: [out, in*basis, kernel...] or, transposed, [in*basis, out, ...] *)
ChkConv(e) ==
  LET K == WeightsPerLink(e.kind, e.n, e.s)
      inn == (e.cin \div (IF e.tr THEN 1 ELSE e.g)) * K
      outt == e.cout \div (IF e.tr THEN e.g ELSE 1)
      ks == IF e.dim = 1 THEN <<e.k[2]>> ELSE e.k
  IN If(e.w = (IF e.tr THEN <<inn, outt>> ELSE <<outt, inn>>) \o ks, "weights per link of the convolution")
ChkSet(e) ==
  LET C == heap[e.id] IN
  If(/\ Len(e.f) = C.cout
     /\ \A o \in 1 .. C.cout : /\ Len(e.f[o]) = C.L.in
                               /\ \A i \in 1 .. C.L.in : Holds(C.L.kind, C.L.n, C.L.s, e.f[o][i]),
     "H:set")
(* one image: every output within tolerance of an admissible value *)
ImgOK(C, kern, f, img, Y, tol) ==
  \A o \in DOMAIN Y : \A y \in DOMAIN Y[o] : \A x \in DOMAIN Y[o][y] :
     \E v \in ConvAt(C, kern, img, o, y - 1, x - 1) : Near(v * f, Y[o][y][x], tol)
ChkCFwd(e) ==
  LET C == heap[e.id]
      den == ConvDen(C, e.D)
      kern == Kernel(C)
      H == Extent(C, 1, Len(e.X[1][1]))
      W == Extent(C, 2, Len(e.X[1][1][1]))
  IN IF ~(C.L.known /\ PeriodOK(C.L, e.D) /\ e.sc % den = 0 /\ TolOK(e)) THEN <<"H:cfwd">>
     ELSE IF ~(Len(e.Y) = Len(e.X) /\ \A b \in DOMAIN e.Y : Shape3(e.Y[b], C.cout, H, W))
          THEN <<"output size of the convolution">>
     ELSE If(\A b \in DOMAIN e.X : ImgOK(C, kern, e.sc \div den, [x |-> e.X[b], d |-> e.D], e.Y[b], e.tol),
             "convolution slides the link functions over the window")
(* ---- gradients: e.cot weighs the outputs ---- *)
ChanOf(C, kern, o, q) == ((o - 1) \div (C.cout \div C.g)) * CinG(C) + kern[q][1] + 1
Outputs(e) == {<<b, y, x>> : b \in DOMAIN e.X, y \in 1 .. Len(e.cot[1][1]), x \in 1 .. Len(e.cot[1][1][1])}
(* numerator read by kernel entry q of output z for channel o; none outside  *)
At(C, kern, e, o, q, z) ==
  LET i == Source(C, 1, z[2] - 1, kern[q][2], Len(e.X[1][1]))
      j == Source(C, 2, z[3] - 1, kern[q][3], Len(e.X[1][1][1]))
  IN  IF i < 0 \/ j < 0 THEN <<>> ELSE <<i + 1, j + 1>>
Pixel(C, kern, e, o, q, z, p) == e.X[z[1]][ChanOf(C, kern, o, q)][p[1]][p[2]]
AllOff(C, e) == \A b \in DOMAIN e.X : \A c \in DOMAIN e.X[b] : \A i \in DOMAIN e.X[b][c] : \A j \in DOMAIN e.X[b][c][i] :
                  /\ ~OnEdge(Pos(C.L, e.X[b][c][i][j], e.D), Units(C.L, e.D), C.L.s)
                  /\ ~AtMirror(e.X[b][c][i][j] * C.L.hd, Period(C.L, e.D))
GoodGrad(C, e, den) == /\ C.L.known /\ PeriodOK(C.L, e.D) /\ e.sc % den = 0 /\ TolOK(e) /\ AllOff(C, e)
                       /\ Len(e.cot) = Len(e.X) /\ Len(e.cot[1]) = C.cout
                       /\ Len(e.cot[1][1]) = Extent(C, 1, Len(e.X[1][1]))
                       /\ Len(e.cot[1][1][1]) = Extent(C, 2, Len(e.X[1][1][1]))
SumOver(S, f(_)) == FoldLeft(LAMBDA a, z : a + f(z), 0, SetToSeq(S))
ChkCGrad(e) ==
  LET C == heap[e.id]
      kern == Kernel(C)
      deg == LayerDeg(e.g)
      den == e.gd * Pow(LocH(Units(C.L, e.D), Len(e.g[1][1])), deg) * (IF C.rs THEN Window(C) ELSE 1)
      Outs == Outputs(e)
      Val(o, q) == SumOver(Outs, LAMBDA z :
                     LET c == e.cot[z[1]][o][z[2]][z[3]]
                         p == At(C, kern, e, o, q, z)
                     IN  IF c = 0 \/ p = <<>> THEN 0
                         ELSE c * One(FVals(e.g[o][q], Pos(C.L, Pixel(C, kern, e, o, q, z, p), e.D), Units(C.L, e.D), deg)))
      Reads(o, q) == UNION {LET p == At(C, kern, e, o, q, z) IN
                            IF p = <<>> THEN {}
                            ELSE UNION {ActiveWeights(C.L.kind, C.L.n, k) :
                                   k \in Segs(Pos(C.L, Pixel(C, kern, e, o, q, z, p), e.D), Units(C.L, e.D), C.L.s)} : z \in Outs}
  IN IF ~GoodGrad(C, e, den) THEN <<"H:cgrad">>
     ELSE If(\A o \in 1 .. C.cout : \A q \in DOMAIN kern : Near(Val(o, q) * (e.sc \div den), e.Y[o][q], e.tol),
             "weight gradient is that of the convolved interpolant")
          \o If(\A o \in 1 .. C.cout : \A q \in DOMAIN kern :
                  LET R == Reads(o, q) IN
                  \A z \in DOMAIN e.nz : (e.nz[z][1] + 1 = o /\ e.nz[z][2] + 1 = q) => e.nz[z][3] \in R,
                "weights outside the active segments have zero gradient")
ChkCXGrad(e) ==
  LET C == heap[e.id]
      L == C.L
      kern == Kernel(C)
      U == Units(L, e.D)
      fs == FuncSegs(L)
      N == Max2(L.deg - 1, 0)
      den == L.d * Pow(LocH(U, fs), N) * L.hn * (IF C.rs THEN Window(C) ELSE 1)
      (* outputs, kernel entries and channels that read each position *)
      Reads == {<<z, o, q>> \in Outputs(e) \X (1 .. C.cout) \X DOMAIN kern :
                  e.cot[z[1]][o][z[2]][z[3]] # 0 /\ At(C, kern, e, o, q, z) # <<>>}
      Slope(o, q, X) == One(FDerivs(L.f[o][q], Pos(L, X, e.D), U, N)) * fs * L.hd
                        * FoldSlope(X * L.hd, Period(L, e.D))
      Val(b, c, i, j) == SumOver({t \in Reads : t[1][1] = b /\ ChanOf(C, kern, t[2], t[3]) = c
                                              /\ At(C, kern, e, t[2], t[3], t[1]) = <<i, j>>},
                           LAMBDA t : e.cot[b][t[2]][t[1][2]][t[1][3]] * Slope(t[2], t[3], e.X[b][c][i][j]))
  IN IF ~GoodGrad(C, e, den) THEN <<"H:cxgrad">>
     ELSE If(\A b \in DOMAIN e.X : \A c \in DOMAIN e.X[b] : \A i \in DOMAIN e.X[b][c] : \A j \in DOMAIN e.X[b][c][i] :
               Near(Val(b, c, i, j) * (e.sc \div den), e.Y[b][c][i][j], e.tol),
             "input gradient is the slope of the convolved interpolant")
(* one weight (k of kernel entry q of output channel o) changed: outputs     *)
(* that do not read it are what they were                                    *)
ChkCPoke(e) ==
  LET C == heap[e.id]
      kern == Kernel(C)
      den == ConvDen(C, e.D)
      Uses(b, o, y, x) ==
        o = e.o + 1 /\ LET p == At(C, kern, e, o, e.q + 1, <<b, y, x>>) IN
                       p # <<>> /\ \E k \in Segs(Pos(C.L, Pixel(C, kern, e, o, e.q + 1, <<b, y, x>>, p), e.D),
                                                 Units(C.L, e.D), C.L.s) : e.k \in ActiveWeights(C.L.kind, C.L.n, k)
  IN IF ~(C.L.known /\ PeriodOK(C.L, e.D) /\ e.sc % den = 0 /\ TolOK(e)) THEN <<"H:cpoke">>
     ELSE IF ~(Len(e.Y) = Len(e.X) /\ \A b \in DOMAIN e.Y :
                Shape3(e.Y[b], C.cout, Extent(C, 1, Len(e.X[1][1])), Extent(C, 2, Len(e.X[1][1][1]))))
          THEN <<"output size of the convolution">>
     ELSE If(\A b \in DOMAIN e.Y : \A o \in DOMAIN e.Y[b] : \A y \in DOMAIN e.Y[b][o] : \A x \in DOMAIN e.Y[b][o][y] :
               Uses(b, o, y, x) \/ \E v \in ConvAt(C, kern, [x |-> e.X[b], d |-> e.D], o, y - 1, x - 1) :
                                    Near(v * (e.sc \div den), e.Y[b][o][y][x], e.tol),
             "other weights leave the output of a convolution alone")
RowOK(want, Y, k, tol) ==
  /\ Len(Y) = Len(want)
  /\ \A i \in DOMAIN want : Near(ScaleBits(want[i][1], want[i][2], k), Y[i], tol)
NetOut(n, img) ==
  IF n.t = "tail" THEN TailFocus(heap, n.levels, n.focus, img)
  ELSE LET r == Last(Images(heap, n.stages, img)) IN Pairs(Flat(r), r.d)
ChkNImg(e) ==
  IF ~(e.tol >= 2 /\ 50 * e.tol <= Pow(2, e.k)) THEN <<"H:nimg">>
  ELSE If(/\ Len(e.Y) = Len(e.X)
          /\ \A b \in DOMAIN e.X : RowOK(NetOut(heap[e.id], ImgNormal([x |-> e.X[b], d |-> e.D])), e.Y[b], e.k, e.tol),
          "network output is the chain of its convolutions")
(* size of the image at the end of a network *)
ChkShape(e) ==
  LET n == heap[e.id]
      r == FoldLeft(LAMBDA q, st : IF st.op = "conv" THEN <<heap[st.id].cout, Extent(heap[st.id], 1, q[2]),
                                                            Extent(heap[st.id], 2, q[3])>>
                                   ELSE IF st.op = "mean" THEN <<q[1], 1, 1>> ELSE q, e.in, n.stages)
  IN If(e.out = IF e.flat THEN <<r[1] * r[2] * r[3]>> ELSE r, "size of the network output")
ChkSizes(e) ==
  LET n == heap[e.id] IN
  If(e.widths = TailWidths(heap, n.convs, e.size) /\ e.sizes = TailSizes(heap, n.convs, n.focus, e.size),
     "reported sizes of the tail focus network")
  \o If(e.got = SumSeq(TailSizes(heap, n.convs, n.focus, e.size)), "produced size of the tail focus network")
ChkNear(e) ==
  IF ~(e.tol >= 2 /\ 50 * e.tol <= e.sc) THEN <<"H:near">>
  ELSE If(/\ Len(e.A) = Len(e.B)
          /\ \A b \in DOMAIN e.A : /\ Len(e.A[b]) = Len(e.B[b])
                                   /\ \A o \in DOMAIN e.A[b] : Near(e.A[b][o], e.B[b][o], e.tol), e.what)

Check(e) ==
  CASE e.e = "conv"  -> ChkConv(e)
    [] e.e = "set"   -> ChkSet(e)
    [] e.e = "cfwd"  -> ChkCFwd(e)
    [] e.e = "cgrad" -> ChkCGrad(e)
    [] e.e = "cxgrad" -> ChkCXGrad(e)
    [] e.e = "cpoke" -> ChkCPoke(e)
    [] e.e = "nimg"  -> ChkNImg(e)
    [] e.e = "shape" -> ChkShape(e)
    [] e.e = "sizes" -> ChkSizes(e)
    [] e.e = "near"  -> ChkNear(e)
    [] e.e = "err"   -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact"  -> If(e.ok, e.what)
    [] e.e \in {"reset", "net", "tail"} -> <<>>
    [] OTHER -> <<"H:unknown event">>

Put(h, id, o) == (id :> o) @@ h
NewConv(e) ==
  [t |-> "conv", cin |-> e.cin, cout |-> e.cout, g |-> e.g, k |-> e.k, st |-> e.st, pad |-> e.pad, dil |-> e.dil,
   op |-> e.op, tr |-> e.tr, rs |-> e.rs, pm |-> e.pm,
   L |-> NewLayer(e.kind, "sum", e.n, e.s, (e.cin \div e.g) * e.k[1] * e.k[2], e.cout, e.hn, e.hd, e.pn, e.pd)]
Effect(e) ==
  CASE e.e = "reset" -> (0 :> [t |-> "nil"])
    [] e.e = "conv"  -> Put(heap, e.id, NewConv(e))
    [] e.e = "set"   -> Put(heap, e.id, [heap[e.id] EXCEPT !.L = SetFunction(heap[e.id].L, e.f, e.d)])
    [] e.e = "net"   -> Put(heap, e.id, [t |-> "net", stages |-> e.stages])
    [] e.e = "tail"  -> Put(heap, e.id, [t |-> "tail", levels |-> e.levels, focus |-> e.focus, convs |-> e.convs])
    [] OTHER -> heap

Init == /\ l = 1 /\ heap = (0 :> [t |-> "nil"]) /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ heap' = Effect(Trace[l])
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, heap, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
