----------------------------- MODULE TraceModel -----------------------------
(* Recorded histories of the autoencoder and of the training wrappers.        *)
EXTENDS Vae, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad, done
vars == <<l, heap, bad, done>>
If(c, name) == IF c THEN <<>> ELSE <<name>>
Shape2(Y, a, b) == Len(Y) = a /\ \A k \in DOMAIN Y : Len(Y[k]) = b
RowsNear(A, B, tol) == Len(A) = Len(B) /\ \A b \in DOMAIN A :
  Len(A[b]) = Len(B[b]) /\ \A i \in DOMAIN A[b] : Near(A[b][i], B[b][i], tol)

(* ---- autoencoder: heap[id] holds the maps written into it ---- *)
ChkEnc(e) ==
  LET V == heap[e.id] IN
  IF ~(e.tol * 50 <= e.sc /\ e.tolv * 50 <= e.sc) THEN <<"H:enc">> ELSE
  If(RowsNear([b \in DOMAIN e.X |-> [i \in DOMAIN Mean(V, e.X[b]) |-> e.sc * Mean(V, e.X[b])[i]]], e.MU, e.tol),
     "mean is its own linear map of the encoded input")
  \o If(RowsNear([b \in DOMAIN e.X |-> [i \in DOMAIN LogStd(V, e.X[b]) |-> e.sc * LogStd(V, e.X[b])[i]]], e.LV, e.tolv),
        "log-variance is its own linear map of the encoded input")
(* MU, LS integers; E, Z in units of 1/sc *)
ChkSample(e) ==
  IF ~(\A b \in DOMAIN e.E : \A i \in DOMAIN e.E[b] : Abs(e.E[b][i]) <= 10 * e.sc) THEN <<"noise is of unit size">>
  ELSE If(Len(e.Z) = Len(e.MU) /\ \A b \in DOMAIN e.MU :
            LET want == Latent(e.MU[b], e.L[b], e.E[b], e.sc) IN
            Len(e.Z[b]) = Len(want) /\ \A i \in DOMAIN want : Near(want[i], e.Z[b][i], 4 + Shift(4, Max2(e.L[b][i], 0))),
          "latent is mean + deviation times noise")
ChkDec(e) ==
  LET V == heap[e.id] IN
  If(Len(e.Y) = Len(e.Z) /\ \A b \in DOMAIN e.Z :
       LET want == Decode(V, e.Z[b], e.sc) IN
       Len(e.Y[b]) = Len(want) /\ \A i \in DOMAIN want : Near(want[i], e.Y[b][i], 8 + 4 * Len(e.Z[b])),
     "decoding maps the latent and applies the decoder")
(* whole pass: the noise E was measured with the same random state *)
ChkPass(e) ==
  LET V == heap[e.id] IN
  IF ~(\A b \in DOMAIN e.E : \A i \in DOMAIN e.E[b] : Abs(e.E[b][i]) <= 10 * e.sc) THEN <<"noise is of unit size">>
  ELSE If(Len(e.Y) = Len(e.X) /\ \A b \in DOMAIN e.X :
       LET want == Decode(V, Latent(Mean(V, e.X[b]), LogStd(V, e.X[b]), e.E[b], e.sc), e.sc) IN
       Len(e.Y[b]) = Len(want) /\ \A i \in DOMAIN want : Near(want[i], e.Y[b][i], 400),
     e.what)
ChkNoise(e) ==          \* E: rows of noise times 1024, at least 1000 rows of 4
  LET n == Len(e.E)
      all == FoldLeft(LAMBDA q, r : q \o r, <<>>, e.E)
      N == Len(all)
      count(P(_)) == FoldLeft(LAMBDA a, v : IF P(v) THEN a + 1 ELSE a, 0, all)
      pos == count(LAMBDA v : v > 0)
      one == count(LAMBDA v : Abs(v) < 1024)
      two == count(LAMBDA v : Abs(v) < 2048)
      corr(i, j) == SumSeq([b \in 1 .. n |-> (e.E[b][i] * e.E[b][j]) \div 1024])
      lag(i, k) == SumSeq([b \in 1 .. n - k |-> (e.E[b][i] * e.E[b + k][i]) \div 1024])
      lim == (1024 * n) \div 4           \* 8 standard deviations for 1024 rows
  IN
  IF ~(N = 4096 /\ n = 1024) THEN <<"noise has the shape of the latent">>
  ELSE If(Abs(pos - 2048) <= 260, "noise is centred")
       \o If(Abs(one - 2796) <= 240 /\ Abs(two - 3910) <= 110, "noise has unit deviation")
       \o If(\A i \in 1 .. 4 : \A j \in 1 .. 4 : i < j => Abs(corr(i, j)) <= lim, "noise is independent across coordinates")
       \o If(\A i \in 1 .. 4 : \A k \in {1, 2, 3, 4, 8, 16, 32, 512} : Abs(lag(i, k)) <= lim,
             "noise is independent across samples")
       \o If(Cardinality({e.E[b] : b \in 1 .. n}) = n, "every sample has noise of its own")
ChkLoss(e) ==
  LET want == VLoss(e.A, e.B, e.D, e.MU, e.L, e.wn, e.wd)
      rec == MSE(e.A, e.B, e.D) IN
  If(Near(want, e.loss, 3 + e.wn + Abs(want) \div 2000), "loss is squared error plus weighted divergence")
  \o If(Near(rec, e.rec, 3 + rec \div 2000), "reported reconstruction loss")

(* ---- training wrappers: stand-in model y = W x ---- *)
Out(e) == Force([b \in DOMAIN e.X |-> VLin(e.W, [o \in DOMAIN e.W |-> 0], e.X[b])])
(* logits are ln 2 times Out: 2^(batch * loss / ln 2) is the product over    *)
(* the samples of sum_k 2^a_k / 2^a_label                                     *)
Hits(A, lab) ==
  LET best(r) == CHOOSE k \in DOMAIN r : \A j \in DOMAIN r : r[j] <= r[k] IN
  FoldLeft(LAMBDA a, b : IF best(A[b]) = lab[b] + 1 THEN a + 1 ELSE a, 0, [b \in DOMAIN A |-> b])
(* many samples at once: the fraction of correct labels *)
ChkAcc(e) ==
  LET A == Out(e) IN
  If(Near(65536 * Hits(A, e.lab), e.acc * Len(A), 8 * Len(A)), "logged accuracy counts the correct labels of a large batch")
ChkCE(e) ==
  LET A == Out(e)
      lo == MinSeq([b \in DOMAIN A |-> MinSeq(A[b])])
      num == ProdSeq([b \in DOMAIN A |-> SumSeq([k \in DOMAIN A[b] |-> Pow(2, A[b][k] - lo)])])
      den == ProdSeq([b \in DOMAIN A |-> Pow(2, A[b][e.lab[b] + 1] - lo)])
      want == ScaleBits(num, den, 8)
      hits == Hits(A, e.lab)
  IN
  IF ~(num < 200000 /\ den < 200000) THEN <<"H:ce">>
  ELSE If(Near(want, e.R, 2 + want \div 500), "returned loss is the cross-entropy of the model's output")
       \o If(e.logged => Near(want, e.RL, 2 + want \div 500), "logged loss is the cross-entropy")
       \o If(e.logged => Near(1024 * hits, e.acc * Len(A), 4 * Len(A)), "logged accuracy counts the correct labels")
ChkMSE(e) ==
  LET A == Out(e)
      n == Len(A) * Len(A[1])
      want == MSE(A, e.B, 1)
      G(o, i) == 2 * SumSeq([b \in DOMAIN A |-> (A[b][o] - e.B[b][o]) * e.X[b][i]])   \* n times the gradient
  IN  If(Near(want, e.loss, 3 + want \div 2000), "returned loss is the squared error of the model's output")
      \o If(e.logged => Near(want, e.lossL, 3 + want \div 2000), "logged loss is the squared error")
      \o If(Shape2(e.G, Len(e.W), Len(e.W[1])) /\
            \A o \in DOMAIN e.W : \A i \in DOMAIN e.W[o] : Near(64 * G(o, i), e.G[o][i] * n, n + Abs(64 * G(o, i)) \div 1000),
            "the loss trains the model")

Check(e) ==
  CASE e.e = "enc"    -> ChkEnc(e)
    [] e.e = "sample" -> ChkSample(e)
    [] e.e = "dec"    -> ChkDec(e)
    [] e.e = "pass"   -> ChkPass(e)
    [] e.e = "noise"  -> ChkNoise(e)
    [] e.e = "loss"   -> ChkLoss(e)
    [] e.e = "ce"     -> ChkCE(e)
    [] e.e = "acc"    -> ChkAcc(e)
    [] e.e = "mse"    -> ChkMSE(e)
    [] e.e = "rows"   -> IF ~(50 * e.tol <= e.sc) THEN <<"H:rows">> ELSE If(RowsNear(e.A, e.B, e.tol), e.what)
    [] e.e = "err"    -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact"   -> If(e.ok, e.what)
    [] e.e \in {"reset", "vae"} -> <<>>
    [] OTHER -> <<"H:unknown event">>
Effect(e) ==
  CASE e.e = "reset" -> (0 :> [t |-> "nil"])
    [] e.e = "vae"   -> (e.id :> [Wm |-> e.Wm, bm |-> e.bm, Wv |-> e.Wv, bv |-> e.bv, Wd |-> e.Wd, bd |-> e.bd]) @@ heap
    [] OTHER -> heap
Init == /\ l = 1 /\ heap = (0 :> [t |-> "nil"]) /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ heap' = Effect(Trace[l])
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, heap, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
