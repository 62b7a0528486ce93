----------------------------- MODULE TraceParts -----------------------------
(* Recorded histories of the parts that are not plain layers: normalisations,*)
(* tensor-product layers, Fourier layers, embeddings, rotations.             *)
EXTENDS Trig, Norms, TensorPoly, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad, done
vars == <<l, heap, bad, done>>
If(c, name) == IF c THEN <<>> ELSE <<name>>
TolOK(e) == e.tol >= 0 /\ (e.tol <= 2 \/ 50 * e.tol <= e.sc)
Shape2(Y, a, b) == Len(Y) = a /\ \A k \in DOMAIN Y : Len(Y[k]) = b

(* ---- normalisations ---- *)
ChkNorm(e) ==
  LET groups == [p \in DOMAIN e.X |-> [j \in DOMAIN GroupOf(e.shape, e.axis, p - 1) |->
                                          e.X[GroupOf(e.shape, e.axis, p - 1)[j] + 1]]] IN
  IF ~(50 * e.tol <= Pow(2, e.k) /\ Prod(e.shape) = Len(e.X)) THEN <<"H:norm">>
  ELSE IF e.yshape # e.shape THEN <<"normalisation keeps the shape">>
  ELSE If(\A p \in DOMAIN e.X : Near(NormVal(e.kind, groups[p], e.X[p], e.D, e.en, e.ed, e.k), e.Y[p], e.tol),
          "normalised by the statistics of its own sample and axis: " \o e.kind)
       \o If(Bounded(e.kind) => \A p \in DOMAIN e.Y : Abs(e.Y[p]) <= Pow(2, e.k) + 2,
             "normalised values stay within [-1, 1]")

(* ---- tensor-product layers ---- *)
ChkTNew(e) == If(e.w = e.want, "weights per link and block")
ChkTFwd(e) ==
  LET L == heap[e.id] IN
  IF ~(TolOK(e) /\ e.sc % TDen(L, e.D) = 0 /\ (L.pn = 0 \/ TPeriod(L, e.D) % 2 = 0)) THEN <<"H:tfwd">>
  ELSE IF ~Shape2(e.Y, Len(e.X), L.out) THEN <<"output shape">>
  ELSE LET f == e.sc \div TDen(L, e.D) IN
       If(\A b \in DOMAIN e.X : \A o \in 1 .. L.out :
            \E v \in TOut(L, o, e.X[b], e.D) : Near(v * f, e.Y[b][o], e.tol),
          "tensor-product interpolant of the weights")

(* ---- Fourier ---- *)
ChkFourier(e) ==          \* Y in millionths / e.wd
  IF ~(720 % e.M = 0 /\ 50 * e.tol <= 1000000) THEN <<"H:fourier">>
  ELSE IF ~Shape2(e.Y, Len(e.X), Len(e.w)) THEN <<"output shape">>
  ELSE If(\A b \in DOMAIN e.X : \A o \in DOMAIN e.w : Near(FourierOut(e.w[o], e.X[b], e.M), e.Y[b][o], e.tol),
          "Fourier series of the weights")
ChkFConv(e) ==            \* Y in millionths, already multiplied by the window when rescaled
  LET C == e.C
      kern == Kernel(C)
      H == Extent(C, 1, Len(e.X[1][1]))
      W == Extent(C, 2, Len(e.X[1][1][1])) IN
  IF ~(720 % e.M = 0 /\ 50 * e.tol <= 1000000 /\ e.mul = (IF C.rs THEN Window(C) ELSE 1)) THEN <<"H:fconv">>
  ELSE IF ~(Len(e.Y) = Len(e.X) /\ \A b \in DOMAIN e.Y : Len(e.Y[b]) = C.cout /\
            \A o \in DOMAIN e.Y[b] : Shape2(e.Y[b][o], H, W)) THEN <<"output shape">>
  ELSE If(\A b \in DOMAIN e.X : \A o \in 1 .. C.cout : \A y \in 1 .. H : \A x \in 1 .. W :
            Near(FourierConvAt(C, kern, e.w, e.X[b], e.M, o, y - 1, x - 1), e.Y[b][o][y][x], e.tol),
          "Fourier convolution of the weights")
ChkEmbed(e) ==
  IF ~(50 * e.tol <= 1000000) THEN <<"H:embed">>
  ELSE IF ~Shape2(e.Y, Len(e.X), 2 * e.half) THEN <<"embedding shape">>
  ELSE If(\A b \in DOMAIN e.X : RowNear(Embedding(e.half, e.X[b]), e.Y[b], e.tol),
          "sines then cosines of the geometric frequencies")

(* ---- rotations ---- *)
ChkRot(e) ==              \* M: observed rows (responses to unit inputs) times 2^20
  LET R == RotationRows(e.n, e.r, e.norm) IN
  IF ~(180 % e.r = 0 /\ e.tol <= 2000) THEN <<"H:rot">>
  ELSE If(e.width = RotationWidth(e.n, e.r) /\ Len(e.M) = e.width, "rotation width")
       \o If(\A F \in R : \E k \in DOMAIN e.M : SomeForm(F, e.M[k], e.tol), "every rotated coordinate is present")
       \o If(\A k \in DOMAIN e.M : \E F \in R : SomeForm(F, e.M[k], e.tol), "nothing but rotated coordinates")
       \o If(e.norm => \A k \in DOMAIN e.M : SumSeq(AbsSeq(e.M[k])) <= 1048576 + e.n * e.tol,
             "normalised outputs stay within [-1, 1]")
ChkRotX(e) ==             \* linear: X over D, M rows times 2^20, Y times 2^12
  IF ~(e.tol <= 80) THEN <<"H:rotx">>
  ELSE IF ~Shape2(e.Y, Len(e.X), Len(e.M)) THEN <<"output shape">>
  ELSE If(\A b \in DOMAIN e.X : \A k \in DOMAIN e.M :
            Near(DivR(SumSeq([i \in DOMAIN e.X[b] |-> DivR(e.M[k][i] * e.X[b][i], e.D)]), 256), e.Y[b][k], e.tol),
          "the rotation layer is linear")
ChkMesh(e) ==
  LET Line(t) == e.Y[t]
      Ok(t, sg) == LET i == (t - 1) \div 2
                       a == Angle(i, e.r)
                   IN  \A x \in 1 .. e.w : \A y \in 1 .. e.h :
                         Near(sg * MeshVal(a, t % 2 = 1, x - 1, y - 1, e.w, e.h, IF e.norm THEN 2 ELSE Max2(e.w, e.h), e.k),
                              Line(t)[x][y], e.tol)
  IN
  IF ~(180 % e.r = 0 /\ 50 * e.tol <= Pow(2, e.k)) THEN <<"H:mesh">>
  ELSE IF ~(Len(e.Y) = 2 * e.r /\ \A t \in DOMAIN e.Y : Shape2(e.Y[t], e.w, e.h)) THEN <<"mesh shape">>
  ELSE If(\A t \in DOMAIN e.Y : Ok(t, 1) \/ (t > 2 /\ t % 2 = 0 /\ Ok(t, -1)), "mesh coordinates")

Check(e) ==
  CASE e.e = "norm"    -> ChkNorm(e)
    [] e.e = "tnew"    -> ChkTNew(e)
    [] e.e = "tfwd"    -> ChkTFwd(e)
    [] e.e = "fourier" -> ChkFourier(e)
    [] e.e = "fconv"   -> ChkFConv(e)
    [] e.e = "embed"   -> ChkEmbed(e)
    [] e.e = "rot"     -> ChkRot(e)
    [] e.e = "rotx"    -> ChkRotX(e)
    [] e.e = "mesh"    -> ChkMesh(e)
    [] e.e = "err"     -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact"    -> If(e.ok, e.what)
    [] e.e \in {"reset", "tset"} -> <<>>
    [] OTHER -> <<"H:unknown event">>
Effect(e) ==
  CASE e.e = "reset" -> (0 :> [t |-> "nil"])
    [] e.e = "tset"  -> (e.id :> (e.L @@ [f |-> e.f, d |-> e.d, deg |-> Force(TDeg(e.f, e.L.dim))])) @@ heap
    [] OTHER -> heap
Init == /\ l = 1 /\ heap = (0 :> [t |-> "nil"]) /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ heap' = Effect(Trace[l])
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, heap, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
