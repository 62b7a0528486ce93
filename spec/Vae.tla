-------------------------------- MODULE Vae ---------------------------------
(* The variational autoencoder as a pipeline of stages                       *)
(*   input -> encoder -> (mean, log-variance) -> latent -> decoder           *)
(* over integers.  Log-variances are 2 ln 2 times an integer L, so that the   *)
(* standard deviation is 2^L and the variance 4^L, both exact.               *)
EXTENDS Arith

VLin(W, b, x) == Force([o \in DOMAIN W |-> SumSeq([i \in DOMAIN x |-> W[o][i] * x[i]]) + b[o]])

(* stand-in encoder and decoder of the harness *)
Encoder(x) == Force([i \in DOMAIN x |-> 2 * x[i] - 1])
(* channel u gives the two pixels 3u + one and -u *)
Decoder(u, one) == FoldLeft(LAMBDA q, v : q \o <<3 * v + one, -v>>, <<>>, u)

Mean(e, x)   == VLin(e.Wm, e.bm, Encoder(x))
LogStd(e, x) == VLin(e.Wv, e.bv, Encoder(x))          \* L, the base-2 logarithm of the deviation

(* 2^L times v, rounded; |L| <= 6 *)
Shift(v, L) == IF L >= 0 THEN v * Pow(2, L) ELSE DivR(v, Pow(2, -L))
(* latent in units of 1/sc, given standard noise in the same units *)
Latent(mu, L, eps, sc) == Force([i \in DOMAIN mu |-> mu[i] * sc + Shift(eps[i], L[i])])
(* decode a latent given in units of 1/sc *)
Decode(e, z, sc) == Decoder(VLin(e.Wd, [o \in DOMAIN e.bd |-> e.bd[o] * sc], z), sc)

(* twice the Gaussian KL divergence per coordinate, times KU *)
KU   == 131072
KLN2 == 90852                                          \* ln 2 times KU
KL2(mu, L) == mu * mu * KU + (IF L >= 0 THEN Pow(4, L) * KU ELSE KU \div Pow(4, -L)) - KU - 2 * L * KLN2
(* batch mean of the divergence, times 1024 *)
KLMean(Mu, Ls) ==
  LET tot == SumSeq([b \in DOMAIN Mu |-> SumSeq([i \in DOMAIN Mu[b] |-> KL2(Mu[b][i], Ls[b][i])])])
  IN  DivR(tot, 256 * Len(Mu))
(* mean squared error, times 1024; values over D *)
MSE(A, B, D) ==
  LET n == SumSeq([b \in DOMAIN A |-> Len(A[b])])
      s == SumSeq([b \in DOMAIN A |-> SumSeq([i \in DOMAIN A[b] |-> (A[b][i] - B[b][i]) * (A[b][i] - B[b][i])])])
  IN  DivR(1024 * s, n * D * D)
VLoss(A, B, D, Mu, Ls, wn, wd) == MSE(A, B, D) + DivR(wn * KLMean(Mu, Ls), wd)
=============================================================================
