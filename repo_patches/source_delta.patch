From 97fbe82c6fb391d4a4ee8b9d47523b00fc7830e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 01/84] fix: build bottom-up Einets of depth 0

The accepted configuration structure='bottom-up', depth=0 raised UnboundLocalError: the root sum
referred to the output width of an intermediate layer that does not exist.
---
 simple_einet/einet.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..2b7e03e 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -352,6 +352,8 @@ class Einet(nn.Module):
 
         # Construct layers from bottom to top
         in_features = self.config.num_features
+        # Without intermediate layers (depth 0), the root sum is placed directly on top of the leaves
+        _num_sums_out = self.config.num_leaves
         for i in np.arange(start=0, stop=self.config.depth):
             # Choose number of input sum nodes
             # - if this is an intermediate layer, use the number of sum nodes from the previous layer
@@ -403,26 +405,15 @@ class Einet(nn.Module):
 
             intermediate_layers.append(layer)
 
-        if self.config.depth == 0:
-            # Create a single sum layer
-            layer = SumLayer(
-                num_sums_in=self.config.num_leaves,
-                num_features=1,
-                num_sums_out=self.config.num_classes,
-                num_repetitions=self.config.num_repetitions,
-                dropout=self.config.dropout,
-            )
-            intermediate_layers.append(layer)
-
         # Construct final root product layer
         root_sum = SumLayer(
             num_sums_in=_num_sums_out,
             num_sums_out=self.config.num_classes,
-            num_features=intermediate_layers[-1].num_features_out,
+            num_features=in_features,
             num_repetitions=self.config.num_repetitions,
         )
         root_product = RootProductLayer(
-            num_features=intermediate_layers[-1].num_features_out, num_repetitions=self.config.num_repetitions
+            num_features=in_features, num_repetitions=self.config.num_repetitions
         )
 
         intermediate_layers.append(root_sum)
-- 
2.43.0


From 20ffd824334dee98839261e3625765de7a0d242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 02/84] fix: sample classes from the uniform prior

The prior was stored in an attribute the sum layer never reads, so sample() without class_index drew
classes from randomly initialised weights instead of the uniform prior posterior() uses.
---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 2b7e03e..3db0851 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -332,7 +332,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -456,7 +456,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From 8c0361a6881c14b2e2ce4e72d4754c18b5e97785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 03/84] fix: allow sampling from Bernoulli leaves

AbstractLeaf.sample passes the sampling context to _get_base_distribution, which Bernoulli did not accept.
---
 simple_einet/layers/distributions/bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..0872f24 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,6 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
-- 
2.43.0


From 9c1336d0a4332b039bb27a519131cf093f0cae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 04/84] fix: sample FactorizedLeafSimple scopes from the group
 they belong to

forward() folds the permuted scopes into groups of consecutive positions (position p is in group
p // cardinality), but sampling assigned position p to group p % num_features_out. Samples therefore did
not follow the density whenever num_features > 2**depth and num_repetitions == 1.
---
 simple_einet/layers/factorized_leaf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..0851d4c 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -333,8 +333,8 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -350,8 +350,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
@@ -373,8 +373,8 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -392,8 +392,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
-- 
2.43.0


From a3b4a2f629df6c462d0c50e46a3b112b52279242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 05/84] fix: apply the scope permutation in
 FactorizedLeaf.forward when num_features == num_features_out

The early return skipped the per-repetition permutation of the scopes which sampling does apply, so
samples of models with num_features == 2**depth and num_repetitions > 1 did not follow the density.
---
 simple_einet/layers/factorized_leaf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 0851d4c..bdd50b6 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -83,9 +83,6 @@ class FactorizedLeaf(AbstractLayer):
         # Factorize input channels
         x = x.sum(dim=1)
 
-        if self.num_features == self.num_features_out:
-            return x
-
         # Merge scopes by naive factorization
         x = torch.einsum("bicr,ior->bocr", x, self.scopes)
 
-- 
2.43.0


From 282b421ac4dad0936792fd2cc34f5e8955cbfc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 06/84] fix: index every feature of a multivariate leaf with
 its own group

A multivariate leaf covers 'cardinality' consecutive features. Sampling tiled the group indices
(g0 g1 g0 g1) instead of repeating each (g0 g0 g1 g1), so features of one Gaussian were drawn from
different leaves, and returned too few features with num_repetitions == 1.
---
 simple_einet/layers/factorized_leaf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bdd50b6..8f6e6db 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -138,6 +138,7 @@ class FactorizedLeaf(AbstractLayer):
             scopes = index_one_hot(scopes, index=r_idx, dim=-1)
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
+            indices_in = indices_in.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
@@ -149,7 +150,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -343,6 +344,7 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
@@ -358,6 +360,7 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             indices_out = indices_out.unsqueeze(-1)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
-- 
2.43.0


From 4d09f2cafab0da72ddabd4c2ca15f0b39d40a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 07/84] fix: reject multivariate leaf configurations that
 cannot be evaluated

num_features not divisible by the cardinality, and multivariate leaves in a bottom-up structure, were
accepted at construction and failed with shape errors in every forward pass and sample.
---
 simple_einet/einet.py                                    | 1 +
 simple_einet/layers/distributions/multivariate_normal.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 3db0851..b520768 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -74,6 +74,7 @@ class EinetConfig:
 
         if self.structure == "bottom-up":
             assert self.layer_type == "linsum", "Bottom-up structure only supports LinsumLayer due to handling of padding (not implemented for einsumlayer yet)."
+            assert cardinality == 1, "Bottom-up structure does not support multivariate leaves (it does not factorize the leaves)."
 
         # Get minimum number of features present at the lowest layer (num_features is the actual input dimension,
         # cardinality in multivariate distributions reduces this dimension since it merges groups of size #cardinality)
diff --git a/simple_einet/layers/distributions/multivariate_normal.py b/simple_einet/layers/distributions/multivariate_normal.py
index efea9d7..8d9c890 100644
--- a/simple_einet/layers/distributions/multivariate_normal.py
+++ b/simple_einet/layers/distributions/multivariate_normal.py
@@ -40,6 +40,9 @@ class MultivariateNormal(AbstractLeaf):
 
         """
         super().__init__(num_features, num_channels, num_leaves, num_repetitions, cardinality)
+        assert (
+            num_features % cardinality == 0
+        ), f"num_features ({num_features}) must be divisible by the cardinality ({cardinality}) of the leaf."
         self._pad_value = num_features % cardinality
         self.out_features = np.ceil(num_features / cardinality).astype(int)
 
-- 
2.43.0


From 60f74f6d95a2adeef4625509bfa7eda18b96e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 08/84] fix: condition the class that is sampled on the
 evidence

---
 simple_einet/einet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b520768..16f0af8 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -202,6 +202,10 @@ class Einet(nn.Module):
         # Final shape check
         assert x.shape == (batch_size, self.config.num_classes)
 
+        # Let the class sampling root see the class likelihoods, such that it samples from p(C | evidence)
+        if self.config.num_classes > 1 and self._class_sampling_root._is_input_cache_enabled:
+            self._class_sampling_root(x.view(batch_size, 1, self.config.num_classes, 1))
+
         return x
 
     def _forward_layers(self, x):
-- 
2.43.0


From be7ed9a717ee7b17af76775961fb81e97cee09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 09/84] fix: sample given a list of classes, and differentiably
 given classes

---
 simple_einet/einet.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 16f0af8..f1e1480 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -580,6 +580,9 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample for each of the given classes
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -615,24 +618,16 @@ class Einet(nn.Module):
                     if isinstance(class_index, list):
                         # A list of classes was given, one element for each sample
                         indices = torch.tensor(class_index, device=self.__device).view(-1, 1)
-                        if is_differentiable:
-                            # TODO: Test this
-                            # One hot encode
-                            indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
-                        if is_differentiable:
-                            # TODO: Test this
-                            # One hot encode
-                            indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requires_grad_(True)  # Enable gradients
+
+                    if is_differentiable:
+                        # One hot encode
+                        indices = torch.zeros(
+                            size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                        ).scatter_(2, indices.unsqueeze(-1), 1)
+                        indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
                 else:
-- 
2.43.0


From b3c3a96b23a41d1338e5f8e1a6efde6721a082ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 10/84] fix: leave the sampling context cleanly when sampling
 raises an exception

---
 simple_einet/sampling_utils.py | 37 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..15fb0a1 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -45,29 +45,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in spn.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = spn(evidence, marginalized_scopes)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit (also if the forward pass or the sampling raised an exception)
         if evidence is not None:
             for module in spn.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From fe835347946a8c8ff9fa5f6663e907a0b65d3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 11/84] fix: resample linsum dropout masks that drop all
 children instead of raising an IndexError

---
 simple_einet/abstract_layers.py | 6 ++++++
 simple_einet/layers/linsum.py   | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/simple_einet/abstract_layers.py b/simple_einet/abstract_layers.py
index 514931f..eed9df6 100644
--- a/simple_einet/abstract_layers.py
+++ b/simple_einet/abstract_layers.py
@@ -157,6 +157,12 @@ class AbstractSumLayer(AbstractLayer):
         self._is_input_cache_enabled = False
         self._input_cache.clear()
 
+    @staticmethod
+    def _all_children_dropped(dropout_indices: Tensor, dim: int) -> Tensor:
+        """Mask of the same shape as `dropout_indices` that selects the nodes of which all children in `dim` are dropped."""
+        invalid_index = dropout_indices.sum(dim, keepdim=True) == dropout_indices.shape[dim]
+        return invalid_index.expand_as(dropout_indices)
+
     @property
     def _device(self):
         """Returns the device of the layer's logits."""
diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..e433c1a 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -90,11 +90,11 @@ class LinsumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            invalid_index = self._all_children_dropped(dropout_indices, dim=2)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+                invalid_index = self._all_children_dropped(dropout_indices, dim=2)
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
 
-- 
2.43.0


From 5c42d56f4077ea6f4589239a80fe698321260be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 12/84] fix: never drop all children of a sum node in SumLayer

---
 simple_einet/layers/sum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..0fc0a61 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -68,11 +68,11 @@ class SumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+            invalid_index = self._all_children_dropped(dropout_indices, dim=2)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+                invalid_index = self._all_children_dropped(dropout_indices, dim=2)
             dropout_indices = torch.log(1 - dropout_indices)
             x = x + dropout_indices
 
-- 
2.43.0


From 987fb9694d9d5543cdd87985d1d17a05cecfed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 13/84] fix: apply linsum2 dropout to the children of its sums
 instead of its outputs

---
 simple_einet/layers/linsum.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index e433c1a..4fce8ba 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -274,7 +274,19 @@ class LinsumLayer2(AbstractSumLayer):
 
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
-        x = x.unsqueeze(3)
+        x = x.unsqueeze(3)  # N x D x Sin x 1 x R
+
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = self._all_children_dropped(dropout_indices, dim=2)
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                invalid_index = self._all_children_dropped(dropout_indices, dim=2)
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
+
         sum_output = torch.logsumexp(x + log_weights, dim=2)  # N x D x Sout x R
 
         # Get left and right partition probs
@@ -287,17 +299,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
-- 
2.43.0


From e0804dd9160a89258dbab8a815aec93a03e6b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 14/84] fix: apply the dropout of an EinsumLayer and never drop
 all children of a node

---
 simple_einet/layers/einsum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..3c48140 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -1,6 +1,5 @@
 from typing import Tuple
 
-import numpy as np
 import torch
 import torch.nn.functional as F
 from torch import Tensor
@@ -64,6 +63,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -116,7 +116,12 @@ class EinsumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            invalid_index = self._all_children_dropped(dropout_indices, dim=2)
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape).bool()
+                invalid_index = self._all_children_dropped(dropout_indices, dim=2)
+            x = x.masked_fill(dropout_indices, -float("inf"))
 
         # Dimensions
         N, D, C, R = x.size()
-- 
2.43.0


From 648a196ff37d24a63c87188aa4444a97f7e04377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 15/84] fix: apply dropout in the root sum layer of bottom-up
 models

---
 simple_einet/einet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index f1e1480..3f13e9b 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -416,6 +416,7 @@ class Einet(nn.Module):
             num_sums_out=self.config.num_classes,
             num_features=in_features,
             num_repetitions=self.config.num_repetitions,
+            dropout=self.config.dropout,
         )
         root_product = RootProductLayer(
             num_features=in_features, num_repetitions=self.config.num_repetitions
-- 
2.43.0


From d93802913611b724924265ff78fd0b3d0760daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 16/84] fix: accept dropout=None, as EinetConfig does

---
 simple_einet/abstract_layers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_einet/abstract_layers.py b/simple_einet/abstract_layers.py
index eed9df6..9602380 100644
--- a/simple_einet/abstract_layers.py
+++ b/simple_einet/abstract_layers.py
@@ -133,7 +133,9 @@ class AbstractSumLayer(AbstractLayer):
         # Weights of this layer as unnormalized log probabilities
         self.logits = nn.Parameter(torch.log(torch.rand(self.weight_shape())))
 
-        # Dropout
+        # Dropout (None, as accepted by the EinetConfig, means no dropout)
+        if dropout is None:
+            dropout = 0.0
         self.dropout = nn.Parameter(torch.tensor(check_valid(dropout, float, 0.0, 1.0)), requires_grad=False)
         self._bernoulli_dist = torch.distributions.Bernoulli(probs=self.dropout)
 
-- 
2.43.0


From aedc633579fd3cdecb5865a7b2fe277ca427de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 17/84] fix: check bounds that are zero

---
 simple_einet/type_checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index 6394610..f98d10b 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -47,12 +47,12 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
         OutOfBoundsException: If the value is outside the specified bounds.
     """
     # Check lower bound
-    if lower_bound:
+    if lower_bound is not None:
         if not value >= expected_type(lower_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
     # Check upper bound
-    if upper_bound:
+    if upper_bound is not None:
         if not value < expected_type(upper_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
-- 
2.43.0


From 140c20ed5740a50194b31547351e1499f2a327b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 18/84] fix: respect a RatNormal max_mean of zero

---
 simple_einet/layers/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 5a8273b..759b16c 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -105,7 +105,7 @@ class RatNormal(AbstractLeaf):
         else:
             sigma = 1.0
         means = self.means
-        if self.max_mean:
+        if self.max_mean is not None:
             assert self.min_mean is not None
             mean_range = self.max_mean - self.min_mean
             means = torch.sigmoid(self.means) * mean_range + self.min_mean
-- 
2.43.0


From d849eb73fedc180beec766b32a66c0ea0c1582f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 19/84] fix: cache the inputs of an EinsumLayer before dropout,
 as the other layers do

---
 simple_einet/layers/einsum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index 3c48140..008e113 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -113,6 +113,11 @@ class EinsumLayer(AbstractSumLayer):
             Tensor: Output of shape [batch, ceil(in_features/2), channel * channel].
         """
 
+        # Save input if input cache is enabled
+        if self._is_input_cache_enabled:
+            self._input_cache["left"] = x[:, 0::2]
+            self._input_cache["right"] = x[:, 1::2]
+
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
@@ -149,11 +154,6 @@ class EinsumLayer(AbstractSumLayer):
         # LogEinsumExp trick, re-add the max
         prob = torch.log(prob) + left_prob_max + right_prob_max
 
-        # Save input if input cache is enabled
-        if self._is_input_cache_enabled:
-            self._input_cache["left"] = left_log_prob
-            self._input_cache["right"] = right_log_prob
-
         return prob
 
     def _sample_from_weights(self, ctx: SamplingContext, log_weights: Tensor):
-- 
2.43.0


From 73bc82640d780922904c289caa4d5424de547db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 20/84] fix: reject MultiDistributionLayer scopes that do not
 cover every feature once

---
 simple_einet/layers/distributions/multidistribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..68ec473 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -41,7 +41,9 @@ class MultiDistributionLayer(AbstractLeaf):
             for scope in scopes:
                 all_scopes.append(scope)
 
-        assert len(all_scopes) == num_features
+        assert sorted(all_scopes) == list(
+            range(num_features)
+        ), f"The scopes must cover each of the {num_features} features exactly once but were {all_scopes}."
         scope_list = []
         dists = []
         for scopes, dist_class, dist_kwargs in scopes_to_dist:
-- 
2.43.0


From 7246f8d186e6eaff6cb1bfb0aa997b416587dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 21/84] fix: keep the mode of a saturated Binomial inside its
 domain

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..23fe48f 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,7 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From 89f8b4a961506e5165943078e71431dc9a4855a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 22/84] fix: return the parameters of the chosen leaves in
 bottom-up sampling

dist_sample asked the torch distribution for get_params(), which only the
leaf layers have, and gathered one of several parameters.
---
 .../layers/distributions/abstract_leaf.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 23fe48f..b986fc9 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -92,13 +92,16 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
         raise Exception(f"MPE not yet implemented for type {type(distribution)}")
 
 
-def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) -> torch.Tensor:
+def dist_sample(
+    distribution: dist.Distribution, ctx: SamplingContext = None, params: torch.Tensor = None
+) -> torch.Tensor:
     """
     Sample n samples from a given distribution.
 
     Args:
         distribution: Leaf distribution from which to sample from.
         ctx: Sampling context.
+        params: Parameters of the leaf (only used, and then required, if ctx.return_leaf_params is set).
 
     Returns:
         torch.Tensor: Samples from the given distribution.
@@ -115,10 +118,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         from simple_einet.layers.distributions.normal import CustomNormal
 
         if ctx.return_leaf_params:
-            samples = distribution.get_params()
-
-            # Add batch dimension
-            samples = samples.unsqueeze(0)
+            # Repeat the parameters along the batch axis
+            samples = params.unsqueeze(0).expand(ctx.num_samples, *params.shape)
         else:
             if type(distribution) == dist.Normal:
                 distribution = dist.Normal(loc=distribution.loc, scale=distribution.scale * np.sqrt(ctx.temperature_leaves))
@@ -144,7 +145,7 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         samples = index_one_hot(samples, index=r_idxs, dim=-2)
     else:
         r_idxs = ctx.indices_repetition.view(-1, 1, 1, 1, 1, 1)
-        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, -1)
+        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, num_params)
         samples = samples.gather(dim=-2, index=r_idxs)
         samples = samples.squeeze(-2)
 
@@ -156,8 +157,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         else:
             # Choose only specific samples for each feature/scope
             p_idxs = ctx.indices_out.view(-1, 1, num_features, 1, 1)
-            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, -1)
-            samples = samples.gather(dim=3, index=p_idxs).squeeze(-1)
+            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, num_params)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
     if ctx.return_leaf_params:
         return samples
@@ -308,7 +309,8 @@ class AbstractLeaf(AbstractLayer, ABC):
             torch.Tensor: A tensor of shape (context.num_samples,) or (1,) containing the drawn samples.
         """
         d = self._get_base_distribution(ctx)
-        samples = dist_sample(distribution=d, ctx=ctx)
+        params = self.get_params() if ctx.return_leaf_params else None
+        samples = dist_sample(distribution=d, ctx=ctx, params=params)
         return samples
 
     def extra_repr(self):
-- 
2.43.0


From 6b01109c8a0b84b22a8b859d7cc6303c32178f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 23/84] fix: broadcast differentiable leaf indices over
 channels when returning leaf parameters

---
 simple_einet/layers/factorized_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 8f6e6db..c75ff37 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -388,7 +388,7 @@ class FactorizedLeafSimple(AbstractLayer):
 
             indices_out = indices_out.unsqueeze(-1)
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
+            indices_out = indices_out.unsqueeze(1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From 2ef6f6840a2f48f24bc97db2278fee5eb78405ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 24/84] fix: return the parameters of multiple distributions in
 feature order

---
 simple_einet/layers/distributions/multidistribution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 68ec473..ae97b28 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -141,4 +141,10 @@ class MultiDistributionLayer(AbstractLeaf):
                 new_shape = list(p.shape)
                 new_shape[-1] = max_num_params - p.shape[-1]
                 params[i] = torch.cat([p, torch.zeros(new_shape, device=p.device, dtype=p.dtype)], dim=-1)
-        return torch.cat(params, dim=2)
+        params = torch.cat(params, dim=2)
+
+        # If inversion is necessary, permute features to obtain the original order
+        if self.needs_inversion:
+            params = params[:, :, self.inverted_index]
+
+        return params
-- 
2.43.0


From 7ce11870975deda4152f09ff93ea6dff56ec9a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 25/84] fix: let Bernoulli leaves return their parameters

---
 simple_einet/layers/distributions/bernoulli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 0872f24..e147f51 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -30,3 +30,6 @@ class Bernoulli(AbstractLeaf):
     def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
+
+    def get_params(self):
+        return self.probs.unsqueeze(-1)
-- 
2.43.0


From 8033f4f5096a3e94a1ad46ad5895ef0fab6f2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 26/84] fix: pass the marginalized scopes of a mixture on to
 its components

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..d92e02b 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -96,7 +96,7 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            lls = self.models[cluster_idx](data_tensor, marginalized_scope)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
-- 
2.43.0


From c109e471ab017314731811aa583093ba8611e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 27/84] fix: keep the order of the drawn clusters in samples of
 a mixture

Samples of several clusters were permuted such that the first rows came
preferably from the first clusters.
---
 simple_einet/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index d92e02b..209abdf 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -173,7 +173,8 @@ class Mixture(nn.Module):
             samples = torch.cat(samples_all, dim=0)
 
             # Sort results into original order as observed in the batch
-            L = [(cluster_idxs[i], i) for i in range(len(cluster_idxs))]
+            sample_idxs_all = [i for k in separated_idxs for i, cluster_idx in enumerate(cluster_idxs) if cluster_idx == k]
+            L = [(sample_idxs_all[i], i) for i in range(len(sample_idxs_all))]
             L.sort()
             _, permutation = zip(*L)
             permutation = torch.tensor(permutation, device=samples.device).view(-1)
-- 
2.43.0


From 45fdd89b4426c65a9573f39b3ba1036be3dc837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 28/84] fix: return num_samples samples from MPE of a mixture

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 209abdf..a65b380 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -139,7 +139,7 @@ class Mixture(nn.Module):
 
         if is_mpe:
             # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+            cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
         else:
             if num_samples_per_cluster is not None:
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
-- 
2.43.0


From e842ce52ec3531dca119de20823739e598cfcb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 29/84] fix: seed the choice of clusters in mixture sampling,
 also with evidence

---
 simple_einet/mixture.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index a65b380..2b186e9 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -127,6 +127,23 @@ class Mixture(nn.Module):
         mpe_at_leaves: bool = False,
     ):
         assert num_samples is None or num_samples_per_cluster is None
+
+        if seed is not None:
+            # Seed once for the choice of the clusters and the samples of all components
+            with torch.random.fork_rng():
+                torch.manual_seed(seed)
+                return self.sample(
+                    num_samples=num_samples,
+                    num_samples_per_cluster=num_samples_per_cluster,
+                    class_index=class_index,
+                    evidence=evidence,
+                    is_mpe=is_mpe,
+                    temperature_leaves=temperature_leaves,
+                    temperature_sums=temperature_sums,
+                    marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
+                )
+
         if num_samples is None and num_samples_per_cluster is not None:
             num_samples = num_samples_per_cluster * self.n_components
 
@@ -165,7 +182,6 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
-                    seed=seed,
                     mpe_at_leaves=mpe_at_leaves,
                 )
                 samples_all.append(samples)
-- 
2.43.0


From 0d03f22d1dfa47da2b1b8d6818000365cbbd9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 30/84] fix: respect mpe_at_leaves in conditional sampling of a
 mixture

---
 simple_einet/mixture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 2b186e9..4c6493e 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -212,6 +212,7 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From 6fa4bd68db674e1a3888ff60b21f74eac28a822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 31/84] fix: keep a mixture weight for clusters without data

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 4c6493e..e32f6c3 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -57,7 +57,7 @@ class Mixture(nn.Module):
 
         data = data.float()  # input has to be [n, d]
         predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
-- 
2.43.0


From 961838b742659290f2f29908f6558a8154cee53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 32/84] fix: evaluate the evidence in ConvPc sampling

sampling_context called log_likelihood(), which ConvPc does not have.
---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..8616ead 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -123,7 +123,7 @@ def sampling_context(
                 if hasattr(module, "_enable_input_cache"):
                     module._enable_input_cache()
 
-            _ = model.log_likelihood(x=evidence)
+            _ = model(evidence)
 
         # Run in context (nothing needs to be yielded)
         yield
-- 
2.43.0


From 8cf74b05f2f00d0ab36491b4afc2280ec43853d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 33/84] fix: leave the ConvPc sampling context also if sampling
 fails

---
 simple_einet/conv_pc.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 8616ead..dbca3b1 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -115,29 +115,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model(evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in model.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = model(evidence)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit (also if the forward pass or the sampling raised an exception)
         if evidence is not None:
             for module in model.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
-- 
2.43.0


From 3a2afe30e461fe1ed0d21028098f2530ed297639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 34/84] fix: allow a single channel at the leaves of a ConvPc

The view above has removed the repetition dimension already.
---
 simple_einet/conv_pc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index dbca3b1..55ff51f 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -639,9 +639,6 @@ class ConvPc(nn.Module):
         # Factorize data input channels
         x = x.sum(1)
 
-        # Remove empty repetition dimension (artifact from Einet implementation)
-        x = x.squeeze(-1)
-
         # Permute from (N, H, W, C) to (N, C, H, W)
         x = x.permute(0, 3, 1, 2)
 
-- 
2.43.0


From 423537cf373c9de5cfdcc0be924891231e2cb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 35/84] fix: normalise sampled SumConv weights over the input
 channels

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 55ff51f..573adba 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -263,7 +263,7 @@ class SumConv(nn.Module):
         logits = logits.permute(0, 1, 2, 4, 3, 5)  # 0 1 2 4 3 5 -> 0 1 2 3 4 5
         logits = logits.contiguous().view(N, Ci, H, W)
 
-        log_weights = logits_to_log_weights(logits, dim=2, temperature=ctx.temperature_sums)
+        log_weights = logits_to_log_weights(logits, dim=1, temperature=ctx.temperature_sums)
         return log_weights
         log_weights_2 = log_weights
 
-- 
2.43.0


From 94f39d0528e3a59e856226f2d289b87fc97de73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 36/84] fix: respect marginalized_scopes in ConvPc

The argument was accepted by sample() and ignored, and the mixture of
ConvPcs hands it to forward().
---
 simple_einet/conv_pc.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 573adba..7e041af 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -88,6 +88,7 @@ def sampling_context(
     evidence: torch.Tensor | None = None,
     requires_grad=False,
     seed=None,
+    marginalized_scopes: List[int] | None = None,
 ):
     """
     Context manager for sampling.
@@ -124,7 +125,7 @@ def sampling_context(
                     if hasattr(module, "_enable_input_cache"):
                         module._enable_input_cache()
 
-                _ = model(evidence)
+                _ = model(evidence, marginalized_scopes)
 
             # Run in context (nothing needs to be yielded)
             yield
@@ -629,9 +630,9 @@ class ConvPc(nn.Module):
         """Small hack to obtain the current device."""
         return next(self.parameters()).device
 
-    def _forward_leaf_data(self, x):
+    def _forward_leaf_data(self, x, marginalized_scopes=None):
         x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
-        x = self.leaf_data(x, marginalized_scopes=None)
+        x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
         )
@@ -644,9 +645,9 @@ class ConvPc(nn.Module):
 
         return x
 
-    def forward(self, x: torch.Tensor | None = None):
+    def forward(self, x: torch.Tensor | None = None, marginalized_scopes: List[int] | None = None):
         # Apply leaf distributions (replace marginalization indicators with 0.0 first)
-        x = self._forward_leaf_data(x)
+        x = self._forward_leaf_data(x, marginalized_scopes)
 
         for layer in self.layers:
             x = layer(x)
@@ -697,6 +698,7 @@ class ConvPc(nn.Module):
             evidence=evidence,
             requires_grad=True,
             seed=seed,
+            marginalized_scopes=marginalized_scopes,
         ):
 
             # Iterate over layers
@@ -724,7 +726,11 @@ class ConvPc(nn.Module):
             evidence = evidence.clone().float()
             shape_evidence = evidence.shape
             evidence = evidence.view_as(samples)
-            mask = torch.isnan(evidence)
+            if marginalized_scopes is None:
+                mask = torch.isnan(evidence)
+            else:
+                mask = torch.zeros_like(evidence, dtype=torch.bool)
+                mask.view(num_samples, self.data_shape.channels, -1)[:, :, marginalized_scopes] = True
             evidence[mask] = samples[mask].to(evidence.dtype)
             evidence = evidence.view(shape_evidence)
 
-- 
2.43.0


From 8e37f02db4bf4278dc5167880e390541da9436b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 37/84] fix: return the leaf parameters from ConvPc sampling

---
 simple_einet/conv_pc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 7e041af..8935468 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -711,16 +711,22 @@ class ConvPc(nn.Module):
             ctx.indices_out = None
             samples = self.leaf_data.sample(ctx=ctx)
 
-            # Samples are of shape (N, C, H*W, I)
-            N, C, HW, I = samples.shape
-            samples = samples.view(N, self.data_shape.channels, self.data_shape.height, self.data_shape.width, I)
+            # Samples are of shape (N, C, H*W, I), leaf parameters of shape (N, C, H*W, I, P)
+            N, C, HW, I, *P = samples.shape
+            samples = samples.view(N, self.data_shape.channels, self.data_shape.height, self.data_shape.width, I, *P)
             # (N, C, H, W, I) -> (N, I, C, H, W)
-            samples = samples.permute(0, 4, 1, 2, 3)
+            samples = samples.movedim(4, 1)
 
             indices_out.unsqueeze_(2)  # Make space for in_channels (I) dim
+            if return_leaf_params:
+                indices_out = indices_out.unsqueeze(-1)  # Make space for parameter (P) dim
             # Index into I
             samples = index_one_hot(samples, index=indices_out, dim=1)
 
+        if return_leaf_params:
+            # Samples contain the distribution parameters instead of the samples
+            return samples
+
         if evidence is not None:
             # First make a copy such that the original object is not changed
             evidence = evidence.clone().float()
-- 
2.43.0


From 9e1c16dddccdf2d97c00f07a5d1344d7a5a0d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 38/84] fix: count the features of all channels in a mixture of
 Einets

The buffer of the centroids did not fit the centroids that initialize()
stores, so that the state of an initialised mixture could not be loaded.
---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index e32f6c3..0e56404 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -26,7 +26,7 @@ class Mixture(nn.Module):
         for _ in range(n_components):
             if isinstance(config, EinetConfig):
                 model = Einet(config)
-                self.num_features = config.num_features
+                self.num_features = config.num_features * config.num_channels
             elif isinstance(config, ConvPcConfig):
                 assert data_shape is not None, "data_shape must not be None (required for ConvPc)"
                 self.num_features = data_shape.num_pixels * data_shape.channels
-- 
2.43.0


From 3f72688630ecc4ca9f1189eb232d2182cee3a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 39/84] fix: ignore missing features of every channel when
 choosing the component of a mixture

---
 simple_einet/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 0e56404..08ab1ed 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -67,9 +67,10 @@ class Mixture(nn.Module):
             self.centroids.data = self.centroids.data * self.config.leaf_kwargs["total_count"]
 
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
+        num_features_per_channel = x[0].numel() // (x.shape[1] if x.dim() > 2 else 1)
         x = x.view(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
-            keep_idx = list(sorted([i for i in range(self.num_features) if i not in marginalized_scopes]))
+            keep_idx = [i for i in range(self.num_features) if i % num_features_per_channel not in marginalized_scopes]
             centroids = self.centroids[:, keep_idx]
             x = x[:, keep_idx]
         else:
-- 
2.43.0


From ba5eb40e805ef862f65ae419a21df8c6973ff0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 40/84] fix: compare partial evidence with the centroids of a
 mixture on observed features

The distance to every centroid was NaN, so that the first component was
chosen for each input with a missing value.
---
 simple_einet/mixture.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 08ab1ed..23c712f 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -75,6 +75,13 @@ class Mixture(nn.Module):
             x = x[:, keep_idx]
         else:
             centroids = self.centroids
+            observed = ~torch.isnan(x)
+            if not observed.all():
+                clusters = [
+                    self._kmeans.max_sim(a=x_i[o_i].view(1, -1).float(), b=centroids[:, o_i])[1]
+                    for x_i, o_i in zip(x, observed)
+                ]
+                return torch.cat(clusters)
         return self._kmeans.max_sim(a=x.float(), b=centroids)[1]
 
     def _separate_data_by_cluster(self, x: torch.Tensor, marginalized_scope: List[int]):
-- 
2.43.0


From 65d95ce41e46d427a0cce07f8581ac7fb3508ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 41/84] fix: initialise PiecewiseLinear when a cluster receives
 no data

---
 simple_einet/layers/distributions/piecewise_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..b6749b0 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -92,7 +92,7 @@ class PiecewiseLinear(AbstractLeaf):
             kmeans.fit(data.view(data.shape[0], -1).float())
 
             predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
-- 
2.43.0


From a133044f458a3065e871a41fe2870427f732552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 42/84] fix: uniform density for continuous PiecewiseLinear
 leaves without data

---
 simple_einet/layers/distributions/piecewise_linear.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index b6749b0..7e49a43 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -136,9 +136,13 @@ class PiecewiseLinear(AbstractLeaf):
                             bins, _ = _get_bin_edges_torch(data_subset)
 
                             # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                densities = torch.ones(len(bins) - 1, device=data.device) / (len(bins) - 1)
+                            else:
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
-- 
2.43.0


From 482be3e8e9002d37c7a5c89853085212ac761e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 43/84] fix: sample values of the domain instead of category
 indices in PiecewiseLinear

---
 simple_einet/layers/distributions/piecewise_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 7e49a43..9f53250 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -323,7 +323,8 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            values = xs_i[1:-1]  # The categories are indices into the values of the domain
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = values[dist.sample(sample_shape)]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0


From 071373a303925eb9dec1bdbc8f5ca3596db88616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 44/84] fix: sample continuous PiecewiseLinear leaves from
 their density

---
 .../layers/distributions/piecewise_linear.py        | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 9f53250..713ec85 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -338,13 +338,18 @@ class PiecewiseLinearDist:
                             # Clamp indices to be within valid range
                             indices = torch.clamp(indices, 1, len(xs_i) - 1)
 
-                            # Perform linear interpolation to get the sample value
+                            # Invert the CDF: the density is linear and the CDF thus quadratic within a segment
                             x0, x1 = xs_i[indices - 1], xs_i[indices]
-                            cdf0, cdf1 = cdf[indices - 1], cdf[indices]
-                            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)  # Avoid division by zero
+                            y0, y1 = ys_i[indices - 1], ys_i[indices]
+                            auc = torch.trapezoid(x=xs_i, y=ys_i)
+                            area = (u - cdf[indices - 1]).clamp(min=0.0) * auc
+                            slope = (y1 - y0) / (x1 - x0)
+                            root = torch.sqrt((y0**2 + 2 * slope * area).clamp(min=0.0))
+                            offset = 2 * area / (y0 + root).clamp(min=1e-8)  # Avoid division by zero
 
                             # Compute the sampled value
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + slope * (u - cdf0)
+                            sample = torch.minimum(x0 + offset, x1)
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = sample
                         else:
                             raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
 
-- 
2.43.0


From 423b9f48209605586c82cd874bcc26dc9575d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 45/84] fix: normalise discrete PiecewiseLinear leaves over the
 values of the domain

---
 .../layers/distributions/piecewise_linear.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 713ec85..9ee2af6 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -126,10 +126,9 @@ class PiecewiseLinear(AbstractLeaf):
                                 # If there is no data in this cluster, set the density to uniform
                                 densities = torch.ones(len(mids), device=data.device) / len(mids)
                             else:
-                                # Compute counts
-                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu(), density=True).hist.to(
-                                    data.device
-                                )
+                                # Compute relative frequencies
+                                counts = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(data.device)
+                                densities = counts / counts.sum()
 
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Find histogram bins using numpys "auto" logic
@@ -183,11 +182,15 @@ class PiecewiseLinear(AbstractLeaf):
                         x = torch.tensor(x, device=data.device)  # , requires_grad=True)
                         y = torch.tensor(y, device=data.device)  # , requires_grad=True)
 
-                        # Compute AUC using the trapeziod rule
-                        auc = torch.trapezoid(x=x, y=y)
+                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                            # Normalize y to sum to 1 over the values of the domain
+                            y = y / y.sum()
+                        else:
+                            # Compute AUC using the trapeziod rule
+                            auc = torch.trapezoid(x=x, y=y)
 
-                        # Normalize y to sum to 1 using AUC
-                        y = y / auc
+                            # Normalize y to sum to 1 using AUC
+                            y = y / auc
 
                         # Store
                         xs_channels.append(x)
-- 
2.43.0


From d10178571074daa360ef9a0576a9076932b7c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 46/84] fix: one bin of the categorical leaf for every value of
 n_bits

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From 11bfbafa539c42497fdba1bd51250e7b04e04959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 47/84] fix: bits per dimension of discrete distributions

---
 simple_einet/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/utils.py b/simple_einet/utils.py
index 58936ff..9fc408e 100644
--- a/simple_einet/utils.py
+++ b/simple_einet/utils.py
@@ -45,7 +45,8 @@ def calc_bpd(log_p: Tensor, image_shape: Tuple[int, int, int], has_gauss_dist: b
         bpd = (-bpd / (np.log(2) * n_pixels)).mean()
 
     else:
-        bpd = log_p - np.log(n_bins) * n_pixels
+        # log_p is already the log probability of the discrete image
+        bpd = log_p
         bpd = (-bpd / (np.log(2) * n_pixels)).mean()
 
     return bpd
-- 
2.43.0


From 8a7a21b6ed15dab4fa62c439464047889a5e6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 48/84] fix: do not modify the batch when preprocessing

---
 models_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models_pl.py b/models_pl.py
index 57fcfeb..528209c 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -120,7 +120,7 @@ class LitModel(pl.LightningModule, ABC):
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
         if self.cfg.dist == Dist.BINOMIAL:
-            data *= 255.0
+            data = data * 255.0
 
         return data
 
-- 
2.43.0


From 273c06bd4b34e713740f6e1d055b55f48350c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 49/84] fix: sampling from product layers

---
 simple_einet/layers/product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 24d127b..4d74430 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -114,7 +114,7 @@ class ProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
                 ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
@@ -259,7 +259,7 @@ class CrossProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
                 ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
-- 
2.43.0


From c8ee5ed0b0f7eeeeb43b153e0cbd7831ef5352d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 50/84] fix: odd number of features in CrossProductLayer

---
 simple_einet/layers/product.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 4d74430..02794a0 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -36,7 +36,7 @@ class ProductLayer(AbstractLayer):
     Attributes:
         cardinality (int): Number of random children for each product node.
         _conv_weights (torch.nn.Parameter): Convolution weights.
-        _pad (int): Padding to the next power of 2.
+        _pad (int): Number of marginalized nodes that are padded.
         _out_features (int): Number of output features.
         out_shape (str): Output shape of the layer.
     """
@@ -154,7 +154,7 @@ class CrossProductLayer(AbstractLayer):
 
     Attributes:
         cardinality (int): Number of random children for each product node.
-        _pad (int): Padding to the next power of 2.
+        _pad (int): Number of marginalized nodes that are padded.
         _out_features (int): Number of output features.
         out_shape (str): Output shape of the layer.
         _scopes (List[List[int]]): List of scopes for each product child.
@@ -174,7 +174,7 @@ class CrossProductLayer(AbstractLayer):
         cardinality = 2  # Fixed to binary graphs for now
         self.cardinality = check_valid(cardinality, int, 2, in_features + 1)
         self._out_features = np.ceil(self.num_features / self.cardinality).astype(int)
-        self._pad = 0
+        self._pad = self.num_features % self.cardinality
 
         # Collect scopes for each product child
         self._scopes = [[] for _ in range(self.cardinality)]
@@ -219,11 +219,8 @@ class CrossProductLayer(AbstractLayer):
         Returns:
             torch.Tensor: Output of shape [batch, ceil(in_features/2), channel * channel].
         """
-        # Check if padding to next power of 2 is necessary
-        if self.num_features != x.shape[1]:
-            # Compute necessary padding to the next power of 2
-            self._pad = 2 ** np.ceil(np.log2(x.shape[1])).astype(np.int) - x.shape[1]
-
+        # Pad if the number of features is odd
+        if self._pad > 0:
             # Pad marginalized node
             x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad], mode="constant", value=0.0)
 
-- 
2.43.0


From 73df29b3864ff2d29dd0e4ead801ecb4bf888fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 51/84] fix: a single feature in Linsum layers

---
 simple_einet/layers/linsum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 4fce8ba..603e930 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -83,7 +83,7 @@ class LinsumLayer(AbstractSumLayer):
 
         if self._pad > 0:
             # Add dummy marginalized RVs
-            right = torch.cat([right, torch.zeros_like(right[:, : self._pad])], dim=1)
+            right = torch.cat([right, torch.zeros_like(left[:, : self._pad])], dim=1)
 
         prod_output = (left + right).unsqueeze(3)  # N x D/2 x Sin x 1 x R
 
@@ -295,7 +295,7 @@ class LinsumLayer2(AbstractSumLayer):
 
         if self._pad > 0:
             # Add dummy marginalized RVs
-            right = torch.cat([right, torch.zeros_like(right[:, : self._pad])], dim=1)
+            right = torch.cat([right, torch.zeros_like(left[:, : self._pad])], dim=1)
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-- 
2.43.0


From 75c24c4f915e8f9719bc3314a94e5fec145e06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 52/84] fix: sampling with an odd number of features in
 LinsumLayer2

---
 simple_einet/layers/linsum.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 603e930..18feb1b 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -318,11 +318,6 @@ class LinsumLayer2(AbstractSumLayer):
 
             indices = indices.view(ctx.num_samples, -1)
 
-
-        if self._pad > 0:
-            # Cut off dummy marginalized RVs
-            indices = indices[:, : -self._pad]
-
         return indices
 
     def _condition_weights_on_evidence(self, ctx, log_weights):
-- 
2.43.0


From 718197eed6c09ba373b995b8bbb4cef35fe6c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 53/84] fix: scale images to the domain of the leaves in the
 training modules

---
 models_pl.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/models_pl.py b/models_pl.py
index 528209c..254625e 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -12,9 +12,10 @@ from torch import nn
 
 from simple_einet.conv_pc import ConvPcConfig, ConvPc
 from simple_einet.data import get_data_shape
-from simple_einet.dist import Dist, get_distribution
+from simple_einet.dist import DataType, get_data_type_from_dist, get_distribution
 from simple_einet.einet import EinetConfig, Einet
 from simple_einet.mixture import Mixture
+from simple_einet.utils import preprocess
 
 # Translate the dataloader index to the dataset name
 DATALOADER_ID_TO_SET_NAME = {0: "train", 1: "val", 2: "test"}
@@ -119,8 +120,10 @@ class LitModel(pl.LightningModule, ABC):
 
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
-        if self.cfg.dist == Dist.BINOMIAL:
-            data = data * 255.0
+        if get_data_type_from_dist(self.cfg.dist) == DataType.DISCRETE:
+            # Map intensities in [0, 1] to the values {0, ..., 2^n_bits - 1} of the discrete leaves
+            n_bits = self.cfg.n_bits
+            data = preprocess(data, n_bits=n_bits, n_bins=2**n_bits, has_gauss_dist=False).float()
 
         return data
 
@@ -215,7 +218,9 @@ class SpnGenerative(LitModel):
             samples = self.spn.sample(num_samples=num_samples, mpe_at_leaves=True, is_differentiable=True).view(
                 -1, *self.image_shape
             )
-        samples = samples / 255.0
+        if get_data_type_from_dist(self.cfg.dist) == DataType.DISCRETE:
+            # Map the values of the discrete leaves back to intensities in [0, 1]
+            samples = samples / (2**self.cfg.n_bits - 1)
         return samples
 
     def on_train_epoch_end(self):
-- 
2.43.0


From e091a70e47e06fe3b353095cb8c51e40539bcbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 54/84] fix: initialise leaves with the mean and variance of
 the whole dataset

---
 simple_einet/sampling_utils.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 15fb0a1..2490465 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -306,22 +306,21 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
 
     Returns: None
     """
-    stats_mean = None
-    stats_var = None
+    num_data = 0
+    stats_mean = 0.0
+    stats_var = 0.0
 
-    # Compute mean and std
+    # Compute mean and variance over all data points (batches can differ in size)
     for batch in tqdm(dataloader, desc="Leaf Parameter Initialization"):
         data, label = batch
-        if stats_mean == None:
-            stats_mean = data.mean(dim=0)
-            stats_var = data.var(dim=0)
-        else:
-            stats_mean += data.mean(dim=0)
-            stats_var += data.var(dim=0)
+        num_data += data.shape[0]
+        stats_mean += data.double().sum(dim=0)
+        stats_var += data.double().square().sum(dim=0)
 
     # Normalize
-    stats_mean /= len(dataloader)
-    stats_var /= len(dataloader)
+    stats_mean /= num_data
+    stats_var = (stats_var - num_data * stats_mean.square()).clamp(min=0.0) / max(num_data - 1, 1)
+    stats_mean, stats_var = stats_mean.float(), stats_var.float()
 
     from simple_einet.layers.distributions.normal import Normal
     from simple_einet.einet import Einet
-- 
2.43.0


From 8fb2e609a50b5327a70d2bfb05f1262cf2beea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 55/84] fix: initialise the leaves of bottom-up models from
 data

---
 simple_einet/sampling_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 2490465..512a28c 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -335,25 +335,28 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
         else:
             raise ValueError(f"Invalid einet type: {type(einet)} -- must be Einet or EinetMixture.")
 
+        # Bottom-up structures use the leaf distribution directly, without a factorized leaf layer around it
+        leaves = [getattr(net.leaf, "base_leaf", net.leaf) for net in einets]
+
         # Reshape to match leaf parameters
         stats_mean_v = (
             stats_mean.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.means)
+            .view_as(leaves[0].means)
         )
         stats_var_v = (
             stats_var.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.logvar)
+            .view_as(leaves[0].logvar)
         )
 
         # Set leaf parameters
-        for net in einets:
+        for leaf in leaves:
             # Add noise to ensure that values are not completely equal along repetitions and einets
-            net.leaf.base_leaf.means.data = stats_mean_v + 0.1 * torch.normal(
+            leaf.means.data = stats_mean_v + 0.1 * torch.normal(
                 torch.zeros_like(stats_mean_v), torch.std(stats_mean_v)
             )
-            net.leaf.base_leaf.logvar.data = torch.log(
+            leaf.logvar.data = torch.log(
                 stats_var_v
                 + 1e-3
                 + torch.clamp(0.1 * torch.normal(torch.zeros_like(stats_var_v), torch.std(stats_var_v)), min=0.0)
-- 
2.43.0


From 655560c85e4cd0dd39b57b9bf2f8b4b546ee0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 56/84] fix: train the classifier of main.py on the class
 posterior

---
 main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 42598c0..71b783a 100644
--- a/main.py
+++ b/main.py
@@ -64,8 +64,7 @@ def train(args, model: Union[Einet, Mixture], device, train_loader, optimizer, e
         outputs = model(data)
 
         if args.classification:
-            model.posterior(data)
-            loss = F.nll_loss(outputs, target, reduction="mean")
+            loss = F.nll_loss(model.posterior(data), target, reduction="mean")
         else:
             loss = log_likelihoods(outputs).mean()
             loss = -1 * loss
-- 
2.43.0


From 56871f498cc94eb32797b154634553ee01c332bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 57/84] fix: synthetic datasets have two features in one
 channel

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..8005d6f 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -78,7 +78,7 @@ def get_data_shape(dataset_name: str) -> Shape:
         Tuple[int, int, int]: Tuple of [channels, height, width].
     """
     if "synth" in dataset_name:
-        return Shape(2, 1, 1)
+        return Shape(channels=1, height=2, width=1)
 
     if dataset_name in DEBD:
         shape = DEBD_shapes[dataset_name]["train"]
-- 
2.43.0


From 191c36eb38f893bd5144097cc4b4af63e2bf3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 58/84] fix: evaluate batches of a single row in main.py

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 71b783a..7e71b1c 100644
--- a/main.py
+++ b/main.py
@@ -119,7 +119,7 @@ def test(model, device, loader, tag):
 
             lls = log_likelihoods(outputs)
             test_loss += -1 * lls.sum()
-            test_losses += lls.squeeze().cpu().tolist()
+            test_losses += lls.reshape(-1).cpu().tolist()
 
             if args.classification:
                 _, predicted = outputs.max(1)
-- 
2.43.0


From 9e18d0d654f90a49ab8ea4a999dda7d10b8f8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 59/84] fix: provide the digits dataset in single precision, as
 all others

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 8005d6f..67c0208 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -474,7 +474,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         digits = datasets.load_digits()
         X, y = digits.data, digits.target
 
-        X = X / X.max()
+        X = (X / X.max()).astype(np.float32)
 
         # Split into train, val, test
         X_train, X_test, y_train, y_test = train_test_split(X, y, test_size=0.1, random_state=42, stratify=y)
-- 
2.43.0


From 21cf3d709b600ed1435c2496827c72449973b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 60/84] fix: number of classes of the digits dataset

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 67c0208..52479f4 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -153,6 +153,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
-- 
2.43.0


From e2f2d67c6bbc7a199d6e57a22beb0f677e29c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 61/84] fix: number of classes of synthetic datasets with more
 than two clusters

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 52479f4..90bb7e9 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -124,7 +124,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         int: Number of classes.
     """
     if "synth" in dataset_name:
-        return 2
+        return {"3-clusters": 3, "9-clusters": 9, "aniso": 3, "varied": 3}.get(dataset_name.replace("synth-", ""), 2)
 
     if dataset_name in DEBD:
         return 0
-- 
2.43.0


From 10a1551aa69222a0eaeab4baa95738e61e469e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 62/84] fix: accept fmnist-16, as the table of shapes does

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 90bb7e9..5de4683 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -493,7 +493,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val), torch.tensor(y_val))
         dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test), torch.tensor(y_test))
 
-    elif dataset_name == "fmnist" or dataset_name == "fmnist-32":
+    elif dataset_name == "fmnist" or dataset_name == "fmnist-32" or dataset_name == "fmnist-16":
         if normalize:
             transform.transforms.append(transforms.Normalize([0.5], [0.5]))
 
-- 
2.43.0


From 33dbce75f8ce2642a5e44172e96cde3163d3146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 63/84] fix: generate the synthetic dataset 'varied'

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5de4683..d5cfee8 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -225,7 +225,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
             n_samples=n_samples,
             cluster_std=[0.5, 0.1, 0.3],
             random_state=0,
-            center_box=[-2, 2],
+            center_box=(-2, 2),
         )
     else:
         raise ValueError(f"Invalid synthetic dataset name: {tag}.")
-- 
2.43.0


From 3fffcdf7d20cd422cd81a6a2d270b7dc5d6493e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 64/84] fix: initialize mixtures in main_pl.py on machines
 without a GPU

---
 main_pl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index b6b687f..b4f4e82 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -119,7 +119,8 @@ def main(cfg: DictConfig):
         if cfg.mixture:
             # If we chose a mixture of einets, we need to initialize the mixture weights
             logger.info("Initializing Einet mixture weights")
-            model.spn.initialize(dataloader=train_loader, device=devices[0])
+            device = f"cuda:{devices[0]}" if accelerator == "gpu" else "cpu"
+            model.spn.initialize(dataloader=train_loader, device=device)
 
         if cfg.init_leaf_data:
             logger.info("Initializing leaf distributions from data statistics")
-- 
2.43.0


From 2ad983eec092def1d5e2142da755582c678fac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 65/84] fix: learning rate of stochastic weight averaging in
 main_pl.py

---
 main_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index b4f4e82..8dedd11 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -135,7 +135,7 @@ def main(cfg: DictConfig):
 
     # Add StochasticWeightAveraging callback
     if cfg.swa:
-        swa_callback = StochasticWeightAveraging()
+        swa_callback = StochasticWeightAveraging(swa_lrs=cfg.lr)
         callbacks.append(swa_callback)
 
     # Enable rich progress bar
-- 
2.43.0


From 88d53c3557ddc6a2e683b72b67bc7a50a6e3c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 66/84] fix: seed from time when no seed is given

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 7bb3432..8c2052a 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -229,7 +229,7 @@ def seed_all_rng(seed=None):
         seed (int): if None, will use a strong random seed.
     """
     if seed is None:
-        seed = os.getpid() + int(datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
+        seed = os.getpid() + int(datetime.datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
         logger.info("Using a generated random seed {}".format(seed))
     np.random.seed(seed)
     torch.manual_seed(seed)
-- 
2.43.0


From e0bc08905ce981ea2512d561c755f42671a6fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 67/84] fix: ensure_dir of a file in the working directory

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 8c2052a..40ced20 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -159,7 +159,7 @@ def ensure_dir(path: str):
     """
 
     d = os.path.dirname(path)
-    if not os.path.exists(d):
+    if d and not os.path.exists(d):
         os.makedirs(d)
 
 
-- 
2.43.0


From a3351a1ba4ec73609a0d52c081e3c3feefe2d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 68/84] fix: never hand out the results directory of an earlier
 run

---
 exp_utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 40ced20..88c4316 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -90,12 +90,29 @@ def make_results_dir(
 
     if remove_if_exists:
         if os.path.exists(experiment_dir):
-            print("Directory already exists, adding _2 to the name")
-            experiment_dir += "_2"
+            print("Directory already exists, adding a number to the name")
+            experiment_dir = get_unused_path(experiment_dir)
     os.makedirs(experiment_dir, exist_ok=True)
     return experiment_dir + "/"
 
 
+def get_unused_path(path: str) -> str:
+    """
+    Returns the path itself if nothing exists there, else the first of path_2, path_3, ... that does not exist.
+
+    Args:
+        path: Path to a file or directory.
+
+    Returns:
+        Path at which nothing exists yet.
+    """
+    unused, i = path, 2
+    while os.path.exists(unused):
+        unused = f"{path}_{i}"
+        i += 1
+    return unused
+
+
 def get_data_dir(dataset_name: str):
     """
     Returns the path to the data directory for the given dataset.
-- 
2.43.0


From 3e435d0976daaa680bc3af7a6b90b10148811538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 69/84] fix: keep the directories of earlier failed or
 interrupted runs apart

---
 exp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 88c4316..6407a47 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -370,7 +370,7 @@ def catch_exception(output_directory: str, e: Exception):
     src = output_directory
     if src.endswith("/"):
         src = src[:-1]
-    dst = src + "_error"
+    dst = get_unused_path(src + "_error")
 
     # Write error to separate file
     with open(os.path.join(output_directory, "error.txt"), "w") as f:
@@ -396,7 +396,7 @@ def catch_kb_interrupt(output_directory):
     src = output_directory
     if src.endswith("/"):
         src = src[:-1]
-    dst = src + "_interrupted"
+    dst = get_unused_path(src + "_interrupted")
 
     logger.error(f"Keyboard interruption catched.")
     logger.error(f"Moving output directory from")
-- 
2.43.0


From e40fb92de48f5ec908f8d31931a2f5003286a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 70/84] fix: accept images of any memory layout, reject images
 with a wrong number of channels

---
 simple_einet/conv_pc.py | 7 +++++--
 simple_einet/einet.py   | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 8935468..60361ec 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -631,7 +631,10 @@ class ConvPc(nn.Module):
         return next(self.parameters()).device
 
     def _forward_leaf_data(self, x, marginalized_scopes=None):
-        x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
+        assert (
+            x.dim() == 2 or x.size(1) == self.data_shape.channels
+        ), f"Number of channels in input ({x.size(1)}) does not match number of channels of the model ({self.data_shape.channels})."
+        x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
         x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
@@ -731,7 +734,7 @@ class ConvPc(nn.Module):
             # First make a copy such that the original object is not changed
             evidence = evidence.clone().float()
             shape_evidence = evidence.shape
-            evidence = evidence.view_as(samples)
+            evidence = evidence.reshape(samples.shape)
             if marginalized_scopes is None:
                 mask = torch.isnan(evidence)
             else:
diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 3f13e9b..baa182e 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -137,7 +137,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.view(x.shape[0], self.config.num_channels, -1)
+            x = x.reshape(x.shape[0], x.shape[1], -1)
 
         assert x.dim() == 3
         assert (
@@ -676,7 +676,7 @@ class Einet(nn.Module):
                 # First make a copy such that the original object is not changed
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
-                evidence = evidence.view_as(samples)
+                evidence = evidence.reshape(samples.shape)
                 if marginalized_scopes is None:
                     mask = torch.isnan(evidence)
                     evidence[mask] = samples[mask].to(evidence.dtype)
-- 
2.43.0


From a0a1f7e1af38fc06b39c8d8038c53e48cb30e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 71/84] fix: accept an empty list of marginalized scopes, and
 lists for multivariate leaves

---
 simple_einet/layers/distributions/abstract_leaf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index b986fc9..7001f29 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -253,9 +253,13 @@ class AbstractLeaf(AbstractLayer, ABC):
             else:
                 s = marginalized_scopes
 
+            # An empty list has no integer type
+            if s.numel() == 0:
+                s = s.long()
+
             # Adjust for leaf cardinality
             if self.cardinality > 1:
-                s = marginalized_scopes.div(self.cardinality, rounding_mode="floor")
+                s = s.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
         else:
-- 
2.43.0


From 95beff188aa646fa451aaf85d1ae2355d789ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 72/84] fix: let mixtures accept any memory layout and scopes
 counted from the end

---
 simple_einet/mixture.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 23c712f..46ad069 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -56,7 +56,7 @@ class Mixture(nn.Module):
             data = torch.cat(l, dim=0).to(device)
 
         data = data.float()  # input has to be [n, d]
-        predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
+        predictions = self._kmeans.fit_predict(data.reshape(data.shape[0], -1))
         counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
@@ -68,9 +68,10 @@ class Mixture(nn.Module):
 
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
         num_features_per_channel = x[0].numel() // (x.shape[1] if x.dim() > 2 else 1)
-        x = x.view(x.shape[0], -1)  # input needs to be [n, d]
+        x = x.reshape(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
-            keep_idx = [i for i in range(self.num_features) if i % num_features_per_channel not in marginalized_scopes]
+            marginalized = {int(s) % num_features_per_channel for s in marginalized_scopes}
+            keep_idx = [i for i in range(self.num_features) if i % num_features_per_channel not in marginalized]
             centroids = self.centroids[:, keep_idx]
             x = x[:, keep_idx]
         else:
-- 
2.43.0


From 0acdd488b6479368d26305be22a74676c2b00961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 73/84] fix: support missing values, modes at the leaves and
 bottom-up structures in conditional binomial leaves

---
 simple_einet/layers/distributions/binomial.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/distributions/binomial.py b/simple_einet/layers/distributions/binomial.py
index 70532ec..c6a5576 100644
--- a/simple_einet/layers/distributions/binomial.py
+++ b/simple_einet/layers/distributions/binomial.py
@@ -231,9 +231,18 @@ class ConditionalBinomial(AbstractLeaf):
         x_cond = x[:, :, self.cond_idxs, None, None]
         d = self.get_conditioned_distribution(x_cond)
 
+        # Replace nans (missing values) with some valid value
+        nan_mask = torch.isnan(x)
+        if nan_mask.any():
+            x = torch.where(nan_mask, self.nan_placeholder, x)
+
         # Compute lls
         x = dist_forward(d, x)
 
+        # Set back to nan
+        if nan_mask.any():
+            x[nan_mask] = torch.nan
+
         # Marginalize
         x = self._marginalize_input(x, marginalized_scopes)
 
@@ -254,7 +263,7 @@ class ConditionalBinomial(AbstractLeaf):
         d = self.get_conditioned_distribution(x_cond)
 
         # Sample from the specified distribution
-        if ctx.is_mpe:
+        if ctx.is_mpe or ctx.mpe_at_leaves:
             samples = dist_mode(d, ctx)
         else:
             samples = d.sample()
@@ -268,7 +277,9 @@ class ConditionalBinomial(AbstractLeaf):
         # If parent index into out_channels are given
         if ctx.indices_out is not None:
             # Choose only specific samples for each feature/scope
-            samples = torch.gather(samples, dim=2, index=ctx.indices_out.unsqueeze(-1)).squeeze(-1)
+            p_idxs = ctx.indices_out.view(-1, 1, self.num_features, 1)
+            p_idxs = p_idxs.expand(-1, self.num_channels, -1, -1)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
         return samples
 
-- 
2.43.0


From 2441dea49d03e89865451f61f3554872911c4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 74/84] fix: reject a number of samples that contradicts the
 list of classes

---
 simple_einet/einet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index baa182e..2469b41 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -583,6 +583,9 @@ class Einet(nn.Module):
             num_samples = evidence.shape[0]
         elif isinstance(class_index, list):
             # One sample for each of the given classes
+            assert num_samples is None or num_samples == len(class_index), (
+                f"Cannot generate {num_samples} samples from a list of {len(class_index)} class indices."
+            )
             num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
-- 
2.43.0


From 4d13a7ddc21f775e2dbe8daa4c7fe59a1e406b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 75/84] fix: reject a RatNormal with only one of the bounds of
 the means

---
 simple_einet/layers/distributions/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 759b16c..2bf989f 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -88,6 +88,7 @@ class RatNormal(AbstractLeaf):
 
         self.min_sigma = check_valid(min_sigma, float, 0.0, max_sigma)
         self.max_sigma = check_valid(max_sigma, float, min_sigma)
+        assert (min_mean is None) == (max_mean is None), "min_mean and max_mean must be given together."
         self.min_mean = check_valid(min_mean, float, upper_bound=max_mean, allow_none=True)
         self.max_mean = check_valid(max_mean, float, min_mean, allow_none=True)
 
-- 
2.43.0


From 6961088a8d78999440f3ac4189c037a6d4b44210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 76/84] fix: apply the mask of logsumexp along the dimension
 that is summed over

---
 simple_einet/layers/einsum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index 008e113..1428c67 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -32,6 +32,11 @@ def logsumexp(tensors, mask=None, dim=-1):
             mask = torch.tensor(mask, device=tensors.device)
         assert mask.shape == (tensors.shape[dim],), "Invalid mask shape"
 
+    # Align the mask with the dimension that is summed over
+    mask_shape = [1] * tensors.dim()
+    mask_shape[dim] = -1
+    mask = mask.view(mask_shape)
+
     maxes = torch.max(tensors, dim=dim)[0]
     return ((tensors - maxes.unsqueeze(dim)).exp() * mask).sum(dim=dim).log() + maxes
 
-- 
2.43.0


From 96c02c5f6577b05c79e54524dba84d1aceabfcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:10 +0000
Subject: [PATCH 77/84] fix: main.py passes an argument that learning rate
 schedulers no longer have

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 7e71b1c..4ca5639 100644
--- a/main.py
+++ b/main.py
@@ -196,7 +196,7 @@ if __name__ == "__main__":
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1, verbose=True)
+    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1)
 
     model, optimizer = fabric.setup(model, optimizer)
 
-- 
2.43.0


From b5b6a29f3221043a64f421c3780e4ee6bf3fd192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:10 +0000
Subject: [PATCH 78/84] fix: main.py could not reconstruct images with several
 channels

---
 main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 4ca5639..3216687 100644
--- a/main.py
+++ b/main.py
@@ -305,8 +305,9 @@ if __name__ == "__main__":
                 ###################
                 # reconstructions #
                 ###################
-                image_scope = np.array(range(np.prod(list(data_shape)))).reshape(data_shape)
-                marginalized_scopes = list(image_scope[:, 0 : round(data_shape[-1] / 2), :].reshape(-1))
+                # Scopes are pixels: all channels of a pixel are marginalized together
+                image_scope = np.array(range(np.prod(data_shape[1:]))).reshape(data_shape[1:])
+                marginalized_scopes = list(image_scope[0 : round(data_shape[-1] / 2), :].reshape(-1))
 
                 num_samples = 1
                 reconstructions = None
-- 
2.43.0


From 542b4eae4bb87ed59aa74406d8cc80dfa3b96200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 79/84] fix: main.py could not train bottom-up structures

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 3216687..989cd50 100644
--- a/main.py
+++ b/main.py
@@ -192,7 +192,7 @@ if __name__ == "__main__":
         sum(p.numel() for p in model.parameters() if p.requires_grad),
     )
 
-    has_gauss_dist = type(model.leaf.base_leaf) in (Normal, RatNormal)
+    has_gauss_dist = leaf_type in (Normal, RatNormal)
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-- 
2.43.0


From 3af26d79914834a827a8f787ba9f6dd0df995b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 80/84] fix: main.py ignored --dropout

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 989cd50..730efd0 100644
--- a/main.py
+++ b/main.py
@@ -180,7 +180,7 @@ if __name__ == "__main__":
         leaf_type=leaf_type,
         leaf_kwargs=leaf_kwargs,
         layer_type=args.layer,
-        dropout=0.0,
+        dropout=args.dropout,
         structure=args.structure,
     )
 
-- 
2.43.0


From 76f541755ec44d5f8a78dd9f518a1e8c50985c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 81/84] fix: main.py ignored --results-dir and --data-dir

---
 main.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/main.py b/main.py
index 730efd0..5b83fec 100644
--- a/main.py
+++ b/main.py
@@ -201,15 +201,13 @@ if __name__ == "__main__":
     model, optimizer = fabric.setup(model, optimizer)
 
     print(model)
-    home_dir = os.getenv("HOME")
-    result_dir = os.path.join(home_dir, "results", "simple-einet", args.dataset)
+    result_dir = os.path.join(args.results_dir, "simple-einet", args.dataset)
     os.makedirs(result_dir, exist_ok=True)
 
-    data_dir = os.path.join("~", "data")
     train_loader, val_loader, test_loader = build_dataloader(
         dataset_name=args.dataset,
         batch_size=args.batch_size,
-        data_dir=data_dir,
+        data_dir=args.data_dir,
         num_workers=os.cpu_count(),
         normalize=False,
         loop=False,
-- 
2.43.0


From bf00c22e1b8873984b27e2e2475db91ec25e01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 82/84] fix: evaluation-only runs of main_pl.py could not find
 and load the stored model

---
 exp_utils.py | 9 ++++-----
 main_pl.py   | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 6407a47..20a4132 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -464,15 +464,14 @@ def load_from_checkpoint(results_dir, load_fn, args):
     """Loads the model from a checkpoint.
 
     Args:
+        results_dir: The directory of the run that stored the checkpoint.
         load_fn: The function to load the model from a checkpoint.
+        args: The configuration of the model.
     Returns:
         The loaded model.
     """
-    ckpt_dir = os.path.join(results_dir, "tb", "version_0", "checkpoints")
-    files = os.listdir(ckpt_dir)
-    assert len(files) > 0, "Checkpoint directory is empty"
-    ckpt_path = os.path.join(ckpt_dir, files[-1])
-    model = load_fn(checkpoint_path=ckpt_path, args=args)
+    ckpt_path = os.path.join(results_dir, "model.pt")
+    model = load_fn(checkpoint_path=ckpt_path, cfg=args, weights_only=False)
     return model
 
 
diff --git a/main_pl.py b/main_pl.py
index 8dedd11..00d236e 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -100,9 +100,10 @@ def main(cfg: DictConfig):
 
     # Load or create model
     if cfg.load_and_eval:
+        model_class = SpnDiscriminative if cfg.classification else SpnGenerative
         model = load_from_checkpoint(
             run_dir,
-            load_fn=SpnGenerative.load_from_checkpoint,
+            load_fn=model_class.load_from_checkpoint,
             args=cfg,
         )
     else:
-- 
2.43.0


From 44905330b80d13c9036dcfba5997475c36890a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 83/84] fix: main_pl.py trains a single epoch with the
 configured learning rate

---
 models_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models_pl.py b/models_pl.py
index 254625e..978ffe0 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -134,7 +134,7 @@ class LitModel(pl.LightningModule, ABC):
         optimizer = torch.optim.Adam(self.parameters(), lr=self.cfg.lr)
         lr_scheduler = torch.optim.lr_scheduler.MultiStepLR(
             optimizer,
-            milestones=[int(0.7 * self.cfg.epochs), int(0.9 * self.cfg.epochs)],
+            milestones=[max(1, int(0.7 * self.cfg.epochs)), max(1, int(0.9 * self.cfg.epochs))],
             gamma=0.1,
         )
         return [optimizer], [lr_scheduler]
-- 
2.43.0


From b8a0df0d568a0dbc34d68fce024740a7d0ab48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:25 +0000
Subject: [PATCH 84/84] fix: main_pwl.py passed a scheduler option that current
 PyTorch no longer has

---
 main_pwl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pwl.py b/main_pwl.py
index 2b2d261..830467a 100644
--- a/main_pwl.py
+++ b/main_pwl.py
@@ -305,7 +305,7 @@ if __name__ == "__main__":
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=lr)
     scheduler = torch.optim.lr_scheduler.MultiStepLR(
-        optimizer, milestones=[int(epochs * 0.8), int(epochs * 0.9)], gamma=0.5, verbose=True
+        optimizer, milestones=[int(epochs * 0.8), int(epochs * 0.9)], gamma=0.5
     )
 
     model.train()
-- 
2.43.0

