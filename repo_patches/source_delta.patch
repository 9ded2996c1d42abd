From a2489e8480b981fa6e8e4dcfb18c4ed3ac88d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 01/13] fix: support double precision in lowest_precision

Training a float64 model with a block-diagonal, hierarchical or Toeplitz
pre-conditioner raised NotImplementedError in the first step.
---
 singd/structures/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..7066f15 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -11,6 +11,7 @@ from torch import (
     eye,
     float16,
     float32,
+    float64,
     get_default_dtype,
     zeros,
 )
@@ -144,12 +145,13 @@ def lowest_precision(*dtypes: torch.dtype) -> torch.dtype:
         *dtypes: The data types to compare.
 
     Returns:
-        The data type of lowest precision (`float16 < bfloat16 < float32`).
+        The data type of lowest precision (`float16 < bfloat16 < float32 <
+        float64`).
 
     Raises:
         NotImplementedError: If any of the specified data types is not supported.
     """
-    supported = [float16, bfloat16, float32]
+    supported = [float16, bfloat16, float32, float64]
     if any(dtype not in supported for dtype in dtypes):
         unsupported = [dtype for dtype in dtypes if dtype not in supported]
         raise NotImplementedError(f"Unsupported data type(s): {unsupported}.")
-- 
2.43.0


From 0ad750c551e6cfb8f6a740f97eff60ea2180f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 02/13] fix: resolve None entries of preconditioner_dtype in
 the natural gradient

A mixed setting such as (float32, None) on a half-precision model multiplied
matrices of different data types and raised in step().
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..2b427c6 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -698,7 +698,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From 793b521a891d0d80a1288e6fa68a85a4e0bbde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 03/13] fix: transpose the blocks in
 BlockDiagonalMatrixTemplate.rmatmat and from_inner

rmatmat(X) returned self @ X instead of self.T @ X and from_inner() computed
self @ self.T. Products of symmetric blocks are not symmetric, so the
pre-conditioner deviated from the defined update from the second update on.
---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..a42abc6 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        transposed = self.__class__(self._blocks.transpose(1, 2), self._last.T)
+        return transposed @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 3768b459fa3ae5a3a85cc2b358899eca9053e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 04/13] fix: do not modify the state dict passed to
 load_state_dict

The entries of STATE_ATTRIBUTES were popped from the caller's dictionary, so
the same snapshot could not be loaded a second time or saved afterwards.
---
 singd/optim/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 2b427c6..c867598 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -885,6 +885,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        state_dict = state_dict.copy()  # do not modify the caller's dictionary
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From 29992cf22020b9dcf018aefe32c3e077f6f2079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 05/13] fix: all-reduce non-contiguous tensors of structured
 matrices in place

The reduction was written to a temporary contiguous copy and discarded.
---
 singd/structures/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..f8a1ff4 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,8 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            if not tensor.is_contiguous():
+                tensor.data = tensor.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 91a32adb72afcba63ba7b193003f185d682fceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 06/13] fix: do not update layer parameters that were not
 passed to the optimizer

With params=[layer.weight] the layer's bias was trained as well.
---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index c867598..a3bfa01 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -795,6 +795,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                # only train parameters that were passed to the optimizer
+                if p.data_ptr() not in self.param_to_group_idx:
+                    continue
+
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From b6cbdc0133f7ae26f7b62a9b8cc0b01b729ff276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 07/13] fix: reject negative integer hyper-parameters

Only negative floats were rejected, e.g. lr=-1 was accepted.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index a3bfa01..c1a8289 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -210,7 +210,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if not callable(x) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From e21ef1f371d711ce7f54c6af0e902b6dee16a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 08/13] fix: respect the padding mode of convolutions when
 extracting patches

The input was always padded with zeros, so the curvature of convolutions with
circular, reflect or replicate padding used patches the layer never saw.
---
 singd/optim/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 79fa649..47ab907 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -162,8 +162,14 @@ def conv2d_process_input(x: Tensor, layer: Conv2d, kfac_approx: str) -> Tensor:
     patch_extractor_fn = (
         _extract_patches if kfac_approx == "expand" else _extract_averaged_patches
     )
+    padding = layer.padding
+    if layer.padding_mode != "zeros":
+        x = F.pad(
+            x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode
+        )
+        padding = 0
     x = patch_extractor_fn(
-        x, layer.kernel_size, layer.stride, layer.padding, layer.dilation, layer.groups
+        x, layer.kernel_size, layer.stride, padding, layer.dilation, layer.groups
     )
 
     if kfac_approx == "expand":
-- 
2.43.0


From 7bdcb12b5d357ca9e61ed032ce7e94ce7e269258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 09/13] fix: preserve hierarchical matrices in
 HierarchicalMatrixTemplate.from_dense

The naive operations of the base class, which recursive structures use, call
from_dense with members of the structure. Hierarchical sub-matrices had their
off-diagonal blocks doubled, so e.g. A @ B or A + B were wrong.
---
 singd/structures/hierarchical.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..4245749 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -158,9 +158,14 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
         A = sym_mat[:K1, :K1]
-        B = 2 * sym_mat[:K1, K1:]
+        # NOTE Sum both sides (instead of doubling one) so that elements of the structure,
+        # for which one side is zero, are preserved by the naive base class operations
+        B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
         C = sym_mat.diag()[K1 : K1 + diag_dim]
-        D = 2 * sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+        D = (
+            sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+            + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
+        )
         E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
 
         return cls(A, B, C, D, E)
-- 
2.43.0


From e56c992630a6e37f1a16c71d0e6ad91d1f99d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 10/13] fix: return a copy from average_trace of Toeplitz
 matrices

The result was a view that changed with later in-place updates of the matrix.
---
 singd/structures/triltoeplitz.py | 2 +-
 singd/structures/triutoeplitz.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index dd29863..9a3bcc6 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -178,7 +178,7 @@ class TrilToeplitzMatrix(StructuredMatrix):
         Returns:
             The average trace of the represented matrix.
         """
-        return self._lower_diags[0]
+        return self._lower_diags[0].clone()
 
     def diag_add_(self, value: float) -> TrilToeplitzMatrix:
         """In-place add a value to the diagonal of the represented matrix.
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index 1a6205d..be551b5 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -176,7 +176,7 @@ class TriuToeplitzMatrix(StructuredMatrix):
         Returns:
             The average trace of the represented matrix.
         """
-        return self._upper_diags[0]
+        return self._upper_diags[0].clone()
 
     def diag_add_(self, value: float) -> TriuToeplitzMatrix:
         """In-place add a value to the diagonal of the represented matrix.
-- 
2.43.0


From f4beb02ed9837b2f5c14104914ffbe838bff609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 11/13] fix: do not share memory with the state dict passed to
 load_state_dict

---
 singd/optim/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index c1a8289..e6ce8c2 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -1,5 +1,6 @@
 """Implements structured inverse-free KFAC."""
 
+from copy import deepcopy
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
@@ -889,7 +890,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
-        state_dict = state_dict.copy()  # do not modify the caller's dictionary
+        # do not modify the caller's dictionary or share memory with its tensors
+        state_dict = deepcopy(state_dict)
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From 3f06eeb0d67e56fd09c6fd3ab3214b0d5ac08b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 12/13] fix: support layers of which only the bias is passed to
 the optimizer

---
 singd/optim/optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index e6ce8c2..85ebab7 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -277,7 +277,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[module.weight.data_ptr()]
+        # all listed parameters of a layer are in the same group, but not all of its
+        # parameters have to be listed
+        group_idx = next(
+            self.param_to_group_idx[param.data_ptr()]
+            for param in module.parameters()
+            if param.data_ptr() in self.param_to_group_idx
+        )
         return self.param_groups[group_idx][entry]
 
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
-- 
2.43.0


From 7a65ee96b3755ca9ea13e6cd9d3814eaf3507afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 13/13] fix: warn about unsupported parameters of container
 modules

---
 singd/optim/optimizer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 85ebab7..3652cdf 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -368,17 +368,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             A list of parameters that can be trained.
         """
-        # all layers that are not containers
-        named_modules = [
-            (name, mod)
-            for name, mod in model.named_modules()
-            if len(list(mod.modules())) == 1
-        ]
-
         trainable = []
-        for name, mod in named_modules:
-            mod_trainable = [param for param in mod.parameters() if param.requires_grad]
-            if isinstance(mod, self.SUPPORTED_MODULES):
+        for name, mod in model.named_modules():
+            # parameters of the module itself, containers may have some, too
+            mod_trainable = [
+                param for param in mod.parameters(recurse=False) if param.requires_grad
+            ]
+            is_container = len(list(mod.modules())) > 1
+            if isinstance(mod, self.SUPPORTED_MODULES) and not is_container:
                 trainable.extend(mod_trainable)
             elif mod_trainable and warn_unsupported:
                 warn(
-- 
2.43.0

