From cf40724c827c00979f41957ff066a63496d8bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 01/36] fix: place segments and nodes of piecewise layers on
 [-length/2, length/2]

The segment edges were hard coded to [-1, 1] and the nodes of the fully
connected piecewise layers ignored length, so any length other than 2 gave
a wrong (and for continuous layers discontinuous) function.
---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..2f58be2 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..502c222 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -462,8 +462,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -599,7 +601,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -694,7 +696,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From 0971ebf2f574481354b0d42103f36e88109c8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 02/36] fix: give the single segment product basis its number
 of basis functions

The polynomial_prod layer could not be constructed.
---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 2f58be2..c9c0e10 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -457,6 +457,7 @@ class BasisFlatProd:
         self.n = n
         self.basis = basis
         self.alpha = alpha
+        self.num_basis = basis.num_basis or n
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
         """
-- 
2.43.0


From 4489910f16e7f2379dc86e1ba5a0b92888d29fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 03/36] fix: build the 1d fourier convolution from the 1d
 expansion and convolution

The fourier1d layer could not be constructed.
---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..d244c83 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -259,7 +259,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From f544b4ab2b480dd10777ce2d97f69fc5a90e634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 04/36] fix: let the product layer work without bias

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From c1f38c37850285e191141188eac959736dd5ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 05/36] fix: return the layer from the fourier series embedding
 constructor

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From c2a5c2a59bd55010340f79a7cb87c70b3ce7dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 06/36] fix: build every layer of the list based network

Only the first layer was ever created.
---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..c7a2a08 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,7 +133,7 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
+        for i in range(1, len(layer_type)):
             if normalization is not None and normalization[i] is not None:
                 layer_list.append(normalization[i]())
             if non_linearity is not None and non_linearity[i] is not None:
-- 
2.43.0


From 1df0182a3e0133c2f5cf51da68cd3c349f6998dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 07/36] fix: make the replica network constructible

Each replica was itself a replica network (infinite recursion) and the input
list was referred to by a name that does not exist.
---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c7a2a08..4da0967 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -379,10 +379,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -429,7 +428,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From 52eb8686bbf6b83146620806688bc53836bdc9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 08/36] fix: register the layers inside switch and sum layers

They were kept in plain lists, so their weights were not trained, saved, moved
or refined.
---
 high_order_layers_torch/layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..e30a1a7 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
@@ -192,7 +192,7 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        self._layers = nn.ModuleList(
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -205,7 +205,7 @@ class SwitchLayer(Module):
                 device=device,
             )
             for _ in range(num_input_layers)
-        ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From 39dc09eebe0d0ea1deb659c86e1aa5354fe4d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 09/36] fix: accept a scalar order in the 2d to 5d polynomial
 layers

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..24aa981 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -290,7 +290,7 @@ class LagrangePolyFlatND(BasisFlatND):
 class LagrangePolyFlatND(LagrangeBasisND):
     def __init__(self, n: int, length: float = 2.0, dimensions: int = 2, **kwargs):
         super().__init__(
-            n,
+            [n] * dimensions if isinstance(n, int) else n,
             length=length,
             dimensions=dimensions,
             **kwargs
-- 
2.43.0


From 4d33d98327936e7464f0e8684ca4e36a18c6b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:53 +0000
Subject: [PATCH 10/36] fix: give every link of the nd piecewise layer its own
 weights

The initialisation flattened the weights and the lookup then used the first
link for all of them; uniform initialisation could not be evaluated at all.
Debug prints of every call are gone with it.
---
 high_order_layers_torch/PolynomialLayers.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 502c222..4f6c556 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -388,8 +388,6 @@ class PiecewiseND(torch.nn.Module):
                 f"Dimensions of n and segments must match, got {len(self.n)} and {len(self.segments)}"
             )
 
-        print('n', n, 'segments', self.segments)
-
         self.in_features = in_features
         self.out_features = out_features
         self.device = device
@@ -430,13 +428,10 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
-        )
-        print("self.w.data", self.w)
+        with torch.no_grad():
+            self.w.copy_(segment_values.unsqueeze(2).expand_as(self.w))
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
@@ -519,17 +514,11 @@ class PiecewiseND(torch.nn.Module):
             -1, -1, self.out_features, -1
         )
 
-        # Select weights for each input point
-        # selected_weights = self.w[weight_indices]
-
-        # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
+        # Select the weights of each link, [batch_size, num_inputs, out_features, weights_per_segment]
+        return torch.gather(
+            self.w.unsqueeze(0).expand(batch_size, -1, -1, -1), 3, weight_indices
         )
 
-        # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
-        return reshaped_weights
-
 
 class PiecewisePolynomial(Piecewise):
     def __init__(
-- 
2.43.0


From 342b5513e10e7edf4c6e68105d7570f5ab63717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 11/36] fix: allow p-refinement of piecewise product layers

They offer the operation but it ended in an UnboundLocalError.
---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 4f6c556..fd2d7b0 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -778,10 +778,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From a8e479196ff40927241bf3f72f03f8f9dc10823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 12/36] fix: let 1d piecewise convolutions take non-contiguous
 input

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index c9c0e10..31ba980 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From ec0fb4b43834ccd263b0a2da41428b121951283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 13/36] fix: apply the weight decay of the sparse optimizer

It was applied to a temporary copy of the selected coordinates.
---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..f5306fb 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p[update_indexes] = p[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From 3ad7b923b745e7aaeacfb1d3989adff6542dee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 14/36] fix: allow the classic sinusoidal embedding to have
 dimension 2

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From 15387ca16e5e1236556f29a8ef0df003804c665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 15/36] fix: attend over the values in the customizing
 attention

The call lacked an argument and always raised.
---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..6c0ab1f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -509,7 +509,7 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
+        context, attn = self.scaled_dot_attn(query, value, value)
         attn = attn.squeeze()
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
-- 
2.43.0


From a4d08778dcafc31470478a2d202d2d1278710ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 16/36] fix: mask the right samples in multi head attention

The heads are the leading index of the scores, but the mask was laid out with
the samples leading, so samples were masked with each other's masks.
---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 6c0ab1f..087a4b9 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.repeat(self.num_heads, 1, 1)  # NBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From e0596a0fe629ed94317b5b32bbaf461ab9db20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 17/36] fix: average the values of the right head in multi head
 location attention

The values are already laid out per head; viewing them again as per position
scrambled positions and heads.
---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 087a4b9..4aa9054 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From e04beba5ff4202a2a5b8828d476294da8a9b297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 18/36] fix: rescale 1d convolutions by the number of inputs
 they sum over

The 2d kernel area was used for 1d kernels as well.
---
 high_order_layers_torch/FunctionalConvolution.py         | 9 +++++----
 .../FunctionalConvolutionTranspose.py                    | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index d244c83..f262506 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -1,4 +1,5 @@
 import logging
+import math
 from abc import ABC
 from typing import Any, Optional, Union
 
@@ -207,7 +208,7 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -307,7 +308,7 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -434,7 +435,7 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -561,7 +562,7 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
diff --git a/high_order_layers_torch/FunctionalConvolutionTranspose.py b/high_order_layers_torch/FunctionalConvolutionTranspose.py
index 552a506..080e0dd 100644
--- a/high_order_layers_torch/FunctionalConvolutionTranspose.py
+++ b/high_order_layers_torch/FunctionalConvolutionTranspose.py
@@ -1,4 +1,5 @@
 import logging
+import math
 from abc import ABC
 from typing import Any, Optional, Union
 
@@ -115,7 +116,7 @@ class PiecewisePolynomialConvolutionTranspose(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From cc5a48d8134a949fea0a40aefca733c395c4a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 19/36] fix: refine periodic layers whose period is shorter
 than the domain

Nodes beyond the period were folded to look up the source segment but not to
evaluate it, which mixed the polynomial of one segment with the coordinate of
another.
---
 high_order_layers_torch/PolynomialLayers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index fd2d7b0..754fa1d 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -269,6 +269,9 @@ class Piecewise(nn.Module):
         if self.periodicity is not None:
             x = make_periodic(x, self.periodicity)
 
+        return self._segment_index(x)
+
+    def _segment_index(self, x: torch.Tensor) -> Tensor:
         # get the segment index
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
@@ -917,8 +920,9 @@ def refine_polynomial_layer(
                     # compute x in the global space
                     x_global = layer_out.x_global(x_out, j)
 
-                    # figure out which segments these correspond to in the input
-                    index_in = layer_in.which_segment(x_global)
+                    # figure out which segments these correspond to in the input, the
+                    # nodes are positions in the domain so periodicity does not apply
+                    index_in = layer_in._segment_index(x_global)
 
                     # compute the local x value in the input so we can interpolate
                     x_local_in = layer_in.x_local(x_global, index_in)
-- 
2.43.0


From 467b02d76155a4f932c5e061d4be5fa8e8fa8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 20/36] fix: keep the intermediate tails of an unnormalized
 tail focus network

The tails were only taken after normalization layers.
---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 4da0967..024dc7f 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -719,6 +719,7 @@ class HighOrderTailFocusNetwork(nn.Module):
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
 
+        self._normalized = normalization is not None
         self.layer_list = []
         self.layer_dict = {}
         for i in range(len(self.channels) - 1):
@@ -766,7 +767,8 @@ class HighOrderTailFocusNetwork(nn.Module):
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            last_of_level = "normal" in name or not self._normalized
+            if last_of_level and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From 487f7af5b423c02d8d82a297917c5a899a6c5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 21/36] fix: account for padding and default stride in the tail
 focus sizes

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 024dc7f..fa332fb 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -752,7 +752,9 @@ class HighOrderTailFocusNetwork(nn.Module):
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+            stride = 1 if self.stride is None else self.stride[i]
+            padded = widths[i] + 2 * self._padding
+            nw = math.ceil((padded - self.kernel_size[i] + 1) / stride)
             widths.append(nw)
 
         output_sizes = [
-- 
2.43.0


From 207687fff5efd02a1d259d2128711ea5b3311839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 22/36] fix: make the second mesh coordinate orthogonal to the
 first

For one rotation the function returned x twice instead of x and y.
---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From bc98d107fdfd4e53f30d53d1d137d664750fa9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 23/36] fix: honour the requested initialization

The networks passed it under names no layer knows, the piecewise layers dropped
it, and the discontinuous layer ignored the magnitude.
---
 high_order_layers_torch/PolynomialLayers.py |  9 ++++++++-
 high_order_layers_torch/networks.py         | 10 +++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 754fa1d..5b41525 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -546,6 +546,7 @@ class PiecewisePolynomial(Piecewise):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -572,6 +573,7 @@ class PiecewisePolynomialProd(Piecewise):
             poly=LagrangePolyProd,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -607,7 +609,9 @@ class PiecewiseDiscontinuous(nn.Module):
                 self.w, out_features, in_features, weight_magnitude, device
             )
         else:
-            self.w.data.uniform_(-1 / in_features, 1 / in_features)
+            self.w.data.uniform_(
+                -weight_magnitude / in_features, weight_magnitude / in_features
+            )
 
         self._length = length
         self._half = 0.5 * length
@@ -720,6 +724,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -745,6 +750,8 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
+            device=device,
+            **kwargs,
         )
 
 
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index fa332fb..69f82d6 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -229,7 +229,7 @@ class HighOrderMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.input_layer)
         for i in range(hidden_layers):
@@ -252,7 +252,7 @@ class HighOrderMLP(nn.Module):
                 scale=scale,
                 periodicity=periodicity,
                 device=device,
-                initialization=initialization,
+                initialize=initialization,
             )
 
             # This will add the result of the previous layer after normalization
@@ -279,7 +279,7 @@ class HighOrderMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.output_layer)
         self.model = nn.Sequential(*layer_list)
@@ -365,7 +365,7 @@ class HighOrderMultiMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         self.layer_list.append(self.input_layer)
 
@@ -424,7 +424,7 @@ class HighOrderMultiMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         self.output_list.append(self.output_layer)
 
-- 
2.43.0


From c07235de6f0ea4cc9d74f1849a871b377b1037c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:30 +0000
Subject: [PATCH 24/36] fix: give the layers of a network the requested scale
 as their length

The networks passed it under a name no layer knows, so it had no effect.
---
 high_order_layers_torch/layers.py   |  2 +-
 high_order_layers_torch/networks.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index e30a1a7..b0fa3ee 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -200,7 +200,7 @@ class SwitchLayer(Module):
                 out_features=out_features,
                 segments=segments,
                 rescale_output=False,
-                scale=scale,
+                length=scale,
                 periodicity=None,
                 device=device,
             )
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 69f82d6..3fb216c 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -129,7 +129,7 @@ class HighOrderMLPList(nn.Module):
             out_features=width[1],
             segments=segments[0],
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
@@ -146,7 +146,7 @@ class HighOrderMLPList(nn.Module):
                 out_features=width[i + 1],
                 segments=segments[i],
                 rescale_output=rescale_output,
-                scale=scale,
+                length=scale,
                 periodicity=periodicity,
             )
             layer_list.append(this_layer)
@@ -226,7 +226,7 @@ class HighOrderMLP(nn.Module):
             out_features=hidden_width,
             segments=in_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialize=initialization,
@@ -249,7 +249,7 @@ class HighOrderMLP(nn.Module):
                 out_features=hidden_width,
                 segments=hidden_segments,
                 rescale_output=rescale_output,
-                scale=scale,
+                length=scale,
                 periodicity=periodicity,
                 device=device,
                 initialize=initialization,
@@ -276,7 +276,7 @@ class HighOrderMLP(nn.Module):
             out_features=out_width,
             segments=out_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialize=initialization,
@@ -362,7 +362,7 @@ class HighOrderMultiMLP(nn.Module):
             out_features=hidden_width,
             segments=in_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialize=initialization,
@@ -421,7 +421,7 @@ class HighOrderMultiMLP(nn.Module):
             out_features=out_width,
             segments=out_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialize=initialization,
-- 
2.43.0


From c5426bd90557607e7f123158357dea098d64773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:22 +0000
Subject: [PATCH 25/36] fix: use the configured order of the hidden layers

The order of the input layer was used for them.
---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..af266d0 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -136,7 +136,7 @@ def select_network(cfg: DictConfig, device: str = None):
             layer_type=cfg.net.layer_type,
             n=cfg.net.n,
             n_in=cfg.net.n_in,
-            n_hidden=cfg.net.n_in,
+            n_hidden=cfg.net.n_hidden,
             n_out=cfg.net.n_out,
             in_width=cfg.net.input.width,
             in_segments=cfg.net.input.segments,
-- 
2.43.0


From 1db227f83be9d23e7f4eac823624e1fdf0fa9d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:22 +0000
Subject: [PATCH 26/36] fix: read the output width of the high order input
 model from the net config

---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index af266d0..f24ded7 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -118,7 +118,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
         lower_layers = LowOrderMLP(
             in_width=cfg.net.hidden.width,
-            out_width=cfg.output.width,
+            out_width=cfg.net.output.width,
             hidden_width=cfg.net.hidden.width,
             hidden_layers=cfg.net.hidden.layers - 1,
             non_linearity=torch.nn.ReLU(),
-- 
2.43.0


From 7c6259c3d08aed118989f7cce8203060fd99a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:22 +0000
Subject: [PATCH 27/36] fix: build the plateau scheduler without the removed
 verbose option

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index f24ded7..905102e 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From cd46dcfae05c7b5dccdf44ebe232bc3d62591036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:22 +0000
Subject: [PATCH 28/36] fix: normalize convolutional models over their channels

The lazy batch norm takes no channel count, so the number of channels was used
as its epsilon.
---
 high_order_layers_torch/modules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 905102e..7a31122 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -155,7 +155,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             pooling=None,  # don't add an average pooling layer
         )
@@ -171,7 +171,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             focus=cfg.net.focus,
         )
-- 
2.43.0


From d3e82cf3772cf03b00ff804ec0376b748ebb9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:36 +0000
Subject: [PATCH 29/36] fix: let switch layers take the length like every other
 layer

---
 high_order_layers_torch/layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index b0fa3ee..e7434dd 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -186,6 +186,7 @@ class SwitchLayer(Module):
         normalization: Callable[[Any], Any] = None,
         num_input_layers: int = 2,
         device: str = "cpu",
+        length: float = None,
         **kwargs,
     ) -> None:
         super().__init__()
@@ -200,7 +201,7 @@ class SwitchLayer(Module):
                 out_features=out_features,
                 segments=segments,
                 rescale_output=False,
-                length=scale,
+                length=scale if length is None else length,
                 periodicity=None,
                 device=device,
             )
-- 
2.43.0


From be9ae1ecc0197203379d8fdf99c4301845fc4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 30/36] fix: initialize grouped 2d polynomial convolutions

---
 high_order_layers_torch/FunctionalConvolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index f262506..03dda19 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -356,7 +356,7 @@ class PolynomialConvolution2d(PolynomialConvolution):
             self.conv.weight,
             num_nodes=n,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self._channels // self.conv.groups,
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
@@ -484,7 +484,7 @@ class PiecewisePolynomialConvolution2d(PiecewisePolynomialConvolution):
             self.conv.weight,
             num_nodes=segments * (n - 1) + 1,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self._channels // self.conv.groups,
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
@@ -613,7 +613,7 @@ class PiecewiseDiscontinuousPolynomialConvolution2d(
             self.conv.weight,
             num_nodes=n * segments,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self._channels // self.conv.groups,
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
-- 
2.43.0


From 02a50ebc8d2b3cb8907ec784471e7b113e6a241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 31/36] fix: rescale grouped convolutions by the inputs each
 output sums over

---
 high_order_layers_torch/FunctionalConvolution.py | 16 ++++++++++++----
 .../FunctionalConvolutionTranspose.py            |  4 +++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index 03dda19..8066312 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -208,7 +208,9 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * math.prod(self.conv.kernel_size)
+        self._total_in = (
+            in_channels * math.prod(self.conv.kernel_size) // self.conv.groups
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -308,7 +310,9 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * math.prod(self.conv.kernel_size)
+        self._total_in = (
+            in_channels * math.prod(self.conv.kernel_size) // self.conv.groups
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -435,7 +439,9 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * math.prod(self.conv.kernel_size)
+        self._total_in = (
+            in_channels * math.prod(self.conv.kernel_size) // self.conv.groups
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -562,7 +568,9 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * math.prod(self.conv.kernel_size)
+        self._total_in = (
+            in_channels * math.prod(self.conv.kernel_size) // self.conv.groups
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
diff --git a/high_order_layers_torch/FunctionalConvolutionTranspose.py b/high_order_layers_torch/FunctionalConvolutionTranspose.py
index 080e0dd..bdd7c1f 100644
--- a/high_order_layers_torch/FunctionalConvolutionTranspose.py
+++ b/high_order_layers_torch/FunctionalConvolutionTranspose.py
@@ -116,7 +116,9 @@ class PiecewisePolynomialConvolutionTranspose(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * math.prod(self.conv.kernel_size)
+        self._total_in = (
+            in_channels * math.prod(self.conv.kernel_size) // self.conv.groups
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From 89cb7ced99daaed2eb6a7aa71b79e9a337addb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:46 +0000
Subject: [PATCH 32/36] fix: sign of the n-d lagrange basis when the total
 degree is odd

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 24aa981..5fbaaf4 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From ff8031de7f162e525d79b396860e6f89fae21633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:06 +0000
Subject: [PATCH 33/36] fix: customizing attention returns its weights in the
 layout it takes them

---
 high_order_layers_torch/attentions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 4aa9054..4a128e5 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -505,7 +505,13 @@ class CustomizingAttention(nn.Module):
         value = value.contiguous().view(-1, v_len, self.dim)
 
         context, attn = self.scaled_dot_attn(query, value, value)
-        attn = attn.squeeze()
+        # Same layout as last_attn, [batch_size * num_heads, v_len] if q_len is 1
+        attn = (
+            attn.view(self.num_heads, batch_size, q_len, v_len)
+            .transpose(0, 1)
+            .reshape(batch_size * self.num_heads, q_len, v_len)
+            .squeeze(1)
+        )
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
             1, 2, 0, 3
-- 
2.43.0


From 61e07bdae8e26ee1b1c98ea1d72eb2f75ae8ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 34/36] fix: name the rejected model type and every alternative

---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 7a31122..e715fe7 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -184,7 +184,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
     else:
         raise ValueError(
-            f"Unrecognized model_type {cfg.model_type} should be high_order, high_order_input or high_order_conv!"
+            f"Unrecognized model_type {cfg.net.model_type} should be high_order, high_order_input, high_order_conv or high_order_tail_focus!"
         )
 
     return model
-- 
2.43.0


From 74cdb0a68056f2616499d34dafa0a495ec9fe7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 35/36] fix: piecewise convolutions evaluate in double
 precision

The dense expansion was always allocated in single precision, so a piecewise
convolution converted with .double() failed on its first evaluation.
---
 high_order_layers_torch/Basis.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 31ba980..3cfc9fc 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -102,6 +102,7 @@ class PiecewiseExpand:
             x.shape[2],
             x.shape[3],
             self._variables,
+            dtype=out.dtype,
             device=device,
         )
 
@@ -186,7 +187,12 @@ class PiecewiseExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            dtype=out.dtype,
+            device=device,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -267,6 +273,7 @@ class PiecewiseDiscontinuousExpand:
             x.shape[2],
             x.shape[3],
             self._variables,
+            dtype=out.dtype,
             device=x.device,
         )
 
@@ -347,7 +354,12 @@ class PiecewiseDiscontinuousExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            dtype=out.dtype,
+            device=device,
         )
 
         wid_min_flat = wid_min.reshape(-1)
-- 
2.43.0


From a09bac8c6292aa32c01c9409de9b36b7924f7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:00 +0000
Subject: [PATCH 36/36] fix: SumLayer adds any number of layers

---
 high_order_layers_torch/layers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index e7434dd..57df26d 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -164,8 +164,7 @@ class SumLayer(nn.Module):
         self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
-        x_all = [layer(x) for layer in self._layer_list]
-        return torch.add(*x_all)
+        return sum(layer(x) for layer in self._layer_list)
 
 
 class SwitchLayer(Module):
-- 
2.43.0

