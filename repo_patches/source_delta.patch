From 98aeec15f867e50c8c05fc88fbfbf12b92813c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 1/7] fix: constant kernel gradients have the shape of the data

The scalar gradient turned the divergence of a kernel scaled by a constant into a
vector of length d.
---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..0a957ed 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(x)
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(y)
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From f542f32497694743394c0e5abe8e7abe41fd830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 2/7] fix: PowerKernel divergence is NaN for power one where
 the kernel is zero

---
 coreax/kernels/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0a957ed..43c183d 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -683,6 +683,9 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
         n = self.power
+        if n == 1:
+            # Avoid '0 * compute**-1', which is NaN where the base kernel is zero
+            return self.base_kernel.divergence_x_grad_y_elementwise(x, y)
         compute = self.base_kernel.compute_elementwise(x, y)
         return n * (
             (
-- 
2.43.0


From 2b090c189c1300ceae708d947f38e7f4245ad39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 3/7] fix: probabilistic KernelHerding ignores zero-weighted
 points

The NaN marking zero-weighted points turned all selection probabilities into NaN, so
that the first point was selected every time.
---
 coreax/solvers/coresubset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..bad4b35 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,6 +342,10 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
+                # Invalid (zero-weighted) points must have zero probability
+                valid_residuals = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
                 probs = jax.nn.softmax(valid_residuals / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
-- 
2.43.0


From 1d02e9af058aa94b607191ac2b0097d7214a370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 4/7] fix: GreedyKernelPoints never selects the placeholder
 index -1

With a candidate batch smaller than the data set and unique=False the placeholder of a
position yet to be filled could be selected.
---
 coreax/solvers/coresubset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bad4b35..0c74e46 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1007,6 +1007,8 @@ def _update_candidate_coresets_and_coreset_indices(
     # ensures it is not chosen. There is additional logic here to ensure that if
     # we are refining (i.e. not reducing), we are allowed to keep the index that
     # currently exists in the coreset if it is the best one.
+    # The placeholder index '-1' of a position yet to be filled is never a valid choice.
+    loss += jnp.where(candidate_coresets[:, i] < 0, jnp.inf, 0)
     if unique:
         already_chosen_indices_mask = jnp.isin(
             candidate_coresets[:, i],
-- 
2.43.0


From 95d65dba9bbe0ddb26b705f2d3e17b9194cf1521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 5/7] fix: KernelHerding and SteinThinning accept
 SupervisedData

Unpacking the leaves of the data set into points and weights failed when it also held
supervision.
---
 coreax/solvers/coresubset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 0c74e46..c9bea49 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    data = coresubset.pre_coreset_data.data
+    data_weights = coresubset.pre_coreset_data.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -506,7 +506,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        x = coresubset.pre_coreset_data.data
+        w_x = coresubset.pre_coreset_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
-- 
2.43.0


From 7cf99becf5f07d9f1e4c8e21eb1a34eaaeea2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:16 +0000
Subject: [PATCH 6/7] fix: kernel thinning works in double precision

---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index c9bea49..44b4b2c 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1463,7 +1463,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         coresets_masking = jnp.zeros(n)
 
         # Initialise parameter
-        sigma = jnp.float32(0)
+        sigma = jnp.array(0.0)
         k = self.sqrt_kernel.compute_elementwise
 
         def compute_kernel_distance(x1, x2):
-- 
2.43.0


From 4b2a1115bef03a080d9d66f0f9b3be8ae06ef3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:19 +0000
Subject: [PATCH 7/7] fix: TreeRecombination never returns the index of a
 padding slot

---
 coreax/solvers/recombination.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..10915ae 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -559,7 +559,9 @@ class TreeRecombination(RecombinationSolver[Data, None]):
             updated_indices = _indices[weight_update_indices.reshape(-1, order="F")]
             return updated_weights.reshape(-1, order="F"), updated_indices
 
-        in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
+        # Padding has zero weight, and must still refer to a point of the dataset
+        in_indices = jnp.minimum(jnp.arange(n + padding), n - 1)
+        in_state = (jnp.pad(weights, (0, padding)), in_indices)
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
-- 
2.43.0

