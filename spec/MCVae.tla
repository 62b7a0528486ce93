------------------------------- MODULE MCVae --------------------------------
(* The pipeline as a state machine, explored for every small mean, deviation *)
(* and noise: the divergence is non-negative and vanishes only at the prior, *)
(* sampling is unbiased (mirrored noise is mirrored about the mean), and the *)
(* loss is monotone in its weight.                                           *)
EXTENDS Vae
CONSTANTS MaxMu, MaxL, MaxE
VARIABLES st, mu, L, eps, z
vars == <<st, mu, L, eps, z>>
Zero2 == <<0, 0>>
Init == st = "new" /\ mu = Zero2 /\ L = Zero2 /\ eps = Zero2 /\ z = Zero2
EncodeA == /\ st = "new" /\ st' = "encoded"
           /\ mu' \in [1 .. 2 -> -MaxMu .. MaxMu]
           /\ L' \in [1 .. 2 -> -MaxL .. MaxL]
           /\ UNCHANGED <<eps, z>>
SampleA == /\ st = "encoded" /\ st' = "sampled"
           /\ eps' \in [1 .. 2 -> -MaxE .. MaxE]
           /\ z' = Latent(mu, L, [i \in 1 .. 2 |-> eps'[i] * 64], 64)
           /\ UNCHANGED <<mu, L>>
Next == EncodeA \/ SampleA
Spec == Init /\ [][Next]_vars
K(i) == KL2(mu[i], L[i])
NonNegative == \A i \in 1 .. 2 : K(i) >= 0
Vanishes == \A i \in 1 .. 2 : (K(i) = 0) <=> (mu[i] = 0 /\ L[i] = 0)
Mirror == st = "sampled" =>
  \A i \in 1 .. 2 : z[i] + Latent(mu, L, [k \in 1 .. 2 |-> -eps[k] * 64], 64)[i] = 2 * 64 * mu[i]
Spread == st = "sampled" => \A i \in 1 .. 2 : Abs(z[i] - 64 * mu[i]) = Shift(64 * Abs(eps[i]), L[i])
Monotone == \A wn \in 0 .. 2 : VLoss(<<mu>>, <<Zero2>>, 1, <<mu>>, <<L>>, wn, 2)
                            <= VLoss(<<mu>>, <<Zero2>>, 1, <<mu>>, <<L>>, wn + 1, 2)
=============================================================================
