From f7efd72dee9956b7cb3c4c2cd04f67a9c7f7cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 01/27] fix: use the transposed blocks in block-diagonal
 rmatmat and from_inner

The blocks of K and C are not symmetric in general (K <- K - beta * K @ m), but
rmatmat multiplied with the blocks instead of their transposes, and
from_inner(None) represented K @ K^T instead of K^T @ K.
---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..a42abc6 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        transposed = self.__class__(self._blocks.transpose(1, 2), self._last.T)
+        return transposed @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 549d4e5f4e1cbbdd0cddead4da1bd729d14b549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 02/27] fix: identify parameters by object instead of by
 storage address

The address of a parameter's storage changes when its .data is swapped (weight
averaging, vector_to_parameters, .to) and can be taken over by another
parameter, which made the optimizer fail or use another group's
hyper-parameters.
---
 singd/optim/optimizer.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..9d2899d 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -276,7 +276,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[module.weight.data_ptr()]
+        group_idx = self.param_to_group_idx[id(module.weight)]
         return self.param_groups[group_idx][entry]
 
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
@@ -296,7 +296,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                 self.SUPPORTED_LOSS_AVERAGE.
 
         Returns:
-            A dictionary mapping parameter IDs (`.data_ptr()`) to group indices.
+            A dictionary mapping parameter IDs (`id(param)`) to group indices.
         """
         for idx, group in enumerate(self.param_groups):
             # if KFAC-like update is employed, alpha1 will be ignored
@@ -323,10 +323,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         param_to_group_idx = {}
         for group_idx, group in enumerate(self.param_groups):
             for param in group["params"]:
-                param_to_group_idx[param.data_ptr()] = group_idx
+                param_to_group_idx[id(param)] = group_idx
 
         param_ids = [
-            param.data_ptr() for group in self.param_groups for param in group["params"]
+            id(param) for group in self.param_groups for param in group["params"]
         ]
         # check that parameters in a supported module are in the same group
         # all layers that are not containers
@@ -336,9 +336,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             if len(list(m.modules())) == 1 and isinstance(m, self.SUPPORTED_MODULES)
         ]
         for m in modules:
-            m_param_ids = [
-                p.data_ptr() for p in m.parameters() if p.data_ptr() in param_ids
-            ]
+            m_param_ids = [id(p) for p in m.parameters() if id(p) in param_ids]
             m_groups = [param_to_group_idx[p_id] for p_id in m_param_ids]
             if len(set(m_groups)) not in [0, 1]:
                 raise ValueError(
@@ -646,14 +644,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             Mapping from hooked modules to their names and list of the installed hooks'
             handles.
         """
-        param_ids = [
-            p.data_ptr() for group in self.param_groups for p in group["params"]
-        ]
+        param_ids = [id(p) for group in self.param_groups for p in group["params"]]
         module_names = {
             mod: name
             for (name, mod) in model.named_modules()
             if isinstance(mod, self.SUPPORTED_MODULES)
-            and any(p.data_ptr() in param_ids for p in mod.parameters())
+            and any(id(p) in param_ids for p in mod.parameters())
         }
         handles = [
             module.register_forward_hook(
-- 
2.43.0


From 2f98c46e8362ff076dae1aa57ac0be6725637b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 03/27] fix: resolve preconditioner_dtype=None before computing
 the natural gradient

With mixed settings like (float32, None), None was passed to Tensor.to, the
gradient kept the data type of the other factor, and step() failed with a data
type mismatch.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 9d2899d..99ed2d3 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -694,7 +694,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From 02a5e41d5df7466da752d27e93232b4dadc12a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 04/27] fix: do not hook layer outputs that require no gradient

Forward passes through a layer whose parameters are frozen and whose input
requires no gradient failed in register_hook.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 99ed2d3..6c7fea8 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -569,7 +569,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             output: The layer's output tensor.
         """
         T = self._get_param_group_entry(module, "T")
-        if is_grad_enabled() and self.steps % T == 0:
+        if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
             output.register_hook(tensor_hook)
 
-- 
2.43.0


From bbfd7ae7c3de0325b924e4d984cd3e55cf5005d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 05/27] fix: average H_K over ranks if the loss is a sum

The layer inputs are normalized by the size of the local mini-batch for every
loss_average. Summing H_K over R ranks for loss_average=None made it R times
larger than on a single process with all the data.
---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 6c7fea8..2e150f4 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -620,8 +620,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         # If DDP is used.
         if dist.is_initialized():
             # all-reduce across devices (computes average by default).
+            # NOTE `H_K` is always normalized by the local mini-batch size
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
-            H_K.all_reduce(op=op)
+            H_K.all_reduce(op=dist.ReduceOp.AVG)
             H_C.all_reduce(op=op)
 
         # store or update existing quantities (they get flushed in `.step`)
-- 
2.43.0


From f0e9c6df5c861e91c253be901a9600583f204150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 06/27] fix: leave layers without a gradient alone in step

A layer that did not take part in the backward passes (frozen, unused branch)
made step() fail with a KeyError or AttributeError after the layers before it
had already been updated. Skip it, like other PyTorch optimizers.
---
 singd/optim/optimizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 2e150f4..c503f39 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -466,6 +466,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             return
 
         module_name = self.module_names[module]
+        if module_name not in self.H_Ks:  # nothing was accumulated for this layer
+            return
+
         K, C = self.Ks[module_name], self.Cs[module_name]
         # NOTE: Pop such that they will be freed after
         H_K: StructuredMatrix = self.H_Ks.pop(module_name)
@@ -779,7 +782,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
     def _step(self):
         """Compute natural gradients and update parameters."""
-        for module in self.module_names:
+        for module, name in self.module_names.items():
+            if module.weight.grad is None:  # layer was not part of the backward passes
+                self.H_Ks.pop(name, None)
+                self.H_Cs.pop(name, None)
+                continue
+
             self._update_preconditioner(module)
             natural_gradients = self._compute_natural_gradient(module)
             parameters = (
-- 
2.43.0


From 28540d69cc0602a30f159fa5cd63776d5a6c4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 07/27] fix: only update a layer's parameters that were given
 to the optimizer

If only the weight of a layer was listed in params, its bias was trained as
well (or step() failed if the bias was frozen). Listing only the bias failed in
the constructor. Parameters that are not trained now keep their value and enter
the layer's gradient matrix as zeros.
---
 singd/optim/optimizer.py | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index c503f39..fd12774 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -276,9 +276,29 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[id(module.weight)]
+        group_idx = next(
+            self.param_to_group_idx[id(p)]
+            for p in module.parameters()
+            if id(p) in self.param_to_group_idx
+        )
         return self.param_groups[group_idx][entry]
 
+    def _parameters_to_update(self, module: Module) -> List[Parameter]:
+        """Get the layer's parameters that will be updated in the current step.
+
+        Args:
+            module: A supported layer.
+
+        Returns:
+            The layer's parameters that are trained by this optimizer and have a
+            gradient.
+        """
+        return [
+            p
+            for p in (module.weight, module.bias)
+            if id(p) in self.param_to_group_idx and p.grad is not None
+        ]
+
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
         """Check parameter groups for conflicts.
 
@@ -679,15 +699,22 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             NotImplementedError: If the layer is not supported.
         """
         # 1) CONCATENATE GRADIENTS OF WEIGHT AND BIAS AND RESHAPE INTO MATRIX
+        # NOTE Parameters that are not updated have zero gradient
+        update_ids = [id(p) for p in self._parameters_to_update(module)]
+        grads = [
+            p.grad.data if id(p) in update_ids else zeros_like(p.data)
+            for p in (module.weight, module.bias)
+            if p is not None
+        ]
         if isinstance(module, Conv2d):
-            grad_mat = module.weight.grad.data.flatten(start_dim=1)
+            grad_mat = grads[0].flatten(start_dim=1)
         elif isinstance(module, Linear):
-            grad_mat = module.weight.grad.data
+            grad_mat = grads[0]
         else:
             raise NotImplementedError(f"Can't get matrix gradient of {module}")
 
         if module.bias is not None:
-            grad_mat = cat([grad_mat, module.bias.grad.data.unsqueeze(1)], dim=1)
+            grad_mat = cat([grad_mat, grads[1].unsqueeze(1)], dim=1)
 
         # un-scale gradients
         grad_scale = self._get_grad_scale(self.steps)
@@ -783,7 +810,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
     def _step(self):
         """Compute natural gradients and update parameters."""
         for module, name in self.module_names.items():
-            if module.weight.grad is None:  # layer was not part of the backward passes
+            update_ids = [id(p) for p in self._parameters_to_update(module)]
+            if not update_ids:  # layer was not part of the backward passes
                 self.H_Ks.pop(name, None)
                 self.H_Cs.pop(name, None)
                 continue
@@ -800,6 +828,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                if id(p) not in update_ids:
+                    continue
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From a221205a32386f08f526eda6ca3512d92f53b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 08/27] fix: allow turning on alpha1 through param_groups
 during training

The momenta m_K, m_C are only created in the constructor if alpha1 is non-zero,
changing it from zero later made step() fail with a KeyError.
---
 singd/optim/optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index fd12774..4f971f8 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -542,8 +542,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # 2) APPLY UPDATE
         if alpha1 != 0.0:
-            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
-            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
+            if module_name in self.m_Ks:  # else, `alpha1` was zero before
+                new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
+                new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
             self.m_Cs[module_name] = new_m_C
             self.m_Ks[module_name] = new_m_K
 
-- 
2.43.0


From 44fe1e2d0210379f4f357219b12c3b3a18545c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 09/27] fix: write the result of all_reduce to non-contiguous
 tensors

Structured matrices extracted from a dense matrix can hold non-contiguous views
of it. all_reduce reduced a contiguous copy of them and dropped the result.
---
 singd/structures/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..3633b2e 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,9 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            # NOTE Communication requires contiguous memory and must write to the
+            # registered tensor, not to a contiguous copy of it
+            tensor.data = tensor.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 190938a96e3bccdcd1123744d6018258f0a94302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 10/27] fix: discard accumulated H_K, H_C in zero_grad

If a backward pass was abandoned (out-of-memory, discarded batch) and zero_grad
called, the statistics of the abandoned pass stayed in the accumulators and
entered the next pre-conditioner update.
---
 singd/optim/optimizer.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 4f971f8..c7046a7 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -795,11 +795,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             simplefilter("always", UserWarning)  # Warn every time this happens.
             warn("Encountered inf in gradients. Skipping update.")
             # Also, empty the accumulators because this step will be skipped.
-            for name in self.module_names.values():
-                if name in self.H_Ks:
-                    del self.H_Ks[name]
-                if name in self.H_Cs:
-                    del self.H_Cs[name]
+            self._reset_accumulators()
         else:
             self._step()
 
@@ -849,6 +845,21 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
                 p.data.add_(p_step, alpha=-lr)
 
+    def zero_grad(self, set_to_none: bool = True) -> None:
+        """Reset the gradients, and the quantities accumulated along with them.
+
+        Args:
+            set_to_none: Whether to set the gradients to `None` instead of zero.
+                Default: `True`.
+        """
+        super().zero_grad(set_to_none=set_to_none)
+        self._reset_accumulators()
+
+    def _reset_accumulators(self) -> None:
+        """Discard the `H_K, H_C` accumulated by backward passes since `.step`."""
+        self.H_Ks.clear()
+        self.H_Cs.clear()
+
     def _get_grad_scale(self, t: int) -> float:
         """Get the gradient scale used in the backpropagation of step `t`.
 
-- 
2.43.0


From 82456f948c198fcab1810448ee92c0717dac150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 11/27] fix: do not change the global warning filters when
 skipping a step

simplefilter('always', UserWarning) stayed in effect for the whole process.
---
 singd/optim/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index c7046a7..c46834a 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -3,7 +3,7 @@
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
-from warnings import simplefilter, warn
+from warnings import warn
 
 import torch.distributed as dist
 from torch import Tensor, cat, device, dtype, is_grad_enabled, zeros_like
@@ -792,8 +792,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if found_inf:
             # Skip the update step if `inf`s were encountered in the gradients.
             # The `GradScaler` will adjust the scale in this case.
-            simplefilter("always", UserWarning)  # Warn every time this happens.
-            warn("Encountered inf in gradients. Skipping update.")
+            # NOTE The message contains the step, hence it is shown every time.
+            warn(
+                f"Encountered inf in gradients. Skipping update (step {self.steps})."
+            )
             # Also, empty the accumulators because this step will be skipped.
             self._reset_accumulators()
         else:
-- 
2.43.0


From 89bfde7e0ca7ae452fce2dad618c0def93c90e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 12/27] fix: remove the hooks if the constructor fails

If initializing the pre-conditioners failed (unknown structure, out of memory),
the hooks stayed on the model and later broke its forward and backward passes.
---
 singd/optim/optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index c46834a..0572307 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -255,7 +255,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self.H_Ks: Dict[str, StructuredMatrix] = {}
         self.H_Cs: Dict[str, StructuredMatrix] = {}
 
-        self._initialize_buffers()
+        try:
+            self._initialize_buffers()
+        except BaseException:  # do not leave hooks of an unusable optimizer behind
+            for handle in self.hook_handles:
+                handle.remove()
+            raise
 
         # Book-keeping of `grad_scale`s. We need to keep track of scales of two
         # consecutive steps because we do not have access to the scale at step `t`
-- 
2.43.0


From 8e1267e1871dbf62e7a9039f47b49ce2a167dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 13/27] fix: copy the state in load_state_dict and check it
 before loading

load_state_dict removed entries from the passed dictionary and shared the
pre-conditioners with it, so that a state could only be loaded once and training
changed it. An incomplete or mismatched state left the optimizer half loaded or
failed at a later step.
---
 singd/optim/optimizer.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 0572307..851edb6 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -1,5 +1,6 @@
 """Implements structured inverse-free KFAC."""
 
+from copy import deepcopy
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
@@ -939,8 +940,39 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        # NOTE Do not modify the passed dictionary and do not share tensors with it
+        state_dict = deepcopy(state_dict)
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
+        self._check_preconditioners(attributes["Ks"], attributes["Cs"])
         super().load_state_dict(state_dict)
 
         for name, value in attributes.items():
             setattr(self, name, value)
+
+    def _check_preconditioners(
+        self, Ks: Dict[str, StructuredMatrix], Cs: Dict[str, StructuredMatrix]
+    ):
+        """Check that pre-conditioners are compatible with the optimizer's layers.
+
+        Args:
+            Ks: Maps layer names to their pre-conditioner matrices `K`.
+            Cs: Maps layer names to their pre-conditioner matrices `C`.
+
+        Raises:
+            ValueError: If the layers or the dimensions of their pre-conditioners
+                don't match.
+        """
+        names = set(self.module_names.values())
+        if set(Ks) != names or set(Cs) != names:
+            raise ValueError(
+                f"Loaded state is for layers {sorted(Ks)}, expected {sorted(names)}."
+            )
+        for module, name in self.module_names.items():
+            for mat, dim in zip((Ks[name], Cs[name]), self.preconditioner_dims(module)):
+                shapes = [t.shape for _, t in mat.named_tensors()]
+                expected = [t.shape for _, t in mat.zeros(dim).named_tensors()]
+                if shapes != expected:
+                    raise ValueError(
+                        f"Pre-conditioner of layer {name} has tensors of shape "
+                        f"{shapes}, expected {expected}."
+                    )
-- 
2.43.0


From ff6e5d2f426fd8bd0284da1771aa14b9369796fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 14/27] fix: allow torch.load to read check-points with default
 settings

Since PyTorch 2.6, torch.load only loads allow-listed classes by default and
refused every check-point, because it contains structured matrices.
---
 singd/structures/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index 3633b2e..00169e3 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Iterator, List, Set, Tuple, Union
+from typing import Any, Iterator, List, Set, Tuple, Union
 from warnings import warn
 
 import torch
@@ -52,6 +52,18 @@ class StructuredMatrix(ABC):
     WARN_NAIVE: bool = True
     WARN_NAIVE_EXCEPTIONS: Set[str] = set()
 
+    def __init_subclass__(cls, **kwargs: Any) -> None:
+        """Allow loading check-points that contain the structure with `torch.load`.
+
+        PyTorch 2.6 and later only load allow-listed classes by default.
+
+        Args:
+            kwargs: Keyword arguments to `super().__init_subclass__`.
+        """
+        super().__init_subclass__(**kwargs)
+        if hasattr(torch.serialization, "add_safe_globals"):
+            torch.serialization.add_safe_globals([cls])
+
     def __init__(self) -> None:
         """Initialize the structured matrix."""
         self._tensor_names: List[str] = []
-- 
2.43.0


From 151ed3db86b805625f11921d550df44d0db4524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 15/27] fix: forget the gradient scale of a failed step in
 load_state_dict

---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 851edb6..3b1ee53 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -949,6 +949,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         for name, value in attributes.items():
             setattr(self, name, value)
 
+        # NOTE Left behind by the `GradScaler` if the previous `.step` failed
+        for name in ["grad_scale", "found_inf"]:
+            self.__dict__.pop(name, None)
+
     def _check_preconditioners(
         self, Ks: Dict[str, StructuredMatrix], Cs: Dict[str, StructuredMatrix]
     ):
-- 
2.43.0


From 91fa7da510a6ec2fd54e5cfb9ae97525f4f3f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 16/27] fix: ignore forward passes that use other parameters

---
 singd/optim/optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 3b1ee53..67af691 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -598,6 +598,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             inputs: The layer's input tensors.
             output: The layer's output tensor.
         """
+        # NOTE The pass does not use the optimizer's parameters, e.g. inside of
+        # `torch.func.functional_call`
+        if all(id(p) not in self.param_to_group_idx for p in module.parameters()):
+            return
+
         T = self._get_param_group_entry(module, "T")
         if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
-- 
2.43.0


From e5df334f1b0c3375c73ac2cc0e9daa8ad4977c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 17/27] fix: support layer inputs without a batch axis

---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 67af691..ab8b84b 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -629,11 +629,15 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # 1) PROCESS INPUTS AND GRAD_OUTPUTS
         a = inputs[0].data.to(dtype_K)
+        # NOTE Layers also process a single datum without a batch axis
+        no_batch_axis = a.ndim < (4 if isinstance(module, Conv2d) else 2)
+        a = a.unsqueeze(0) if no_batch_axis else a
         # Process into matrix according to kfac_approx
         # For convolutions, unfold the input, for modules with bias terms, append a 1
         a = process_input(a, module, kfac_approx)
 
         g = grad_output.data.to(dtype_C)
+        g = g.unsqueeze(0) if no_batch_axis else g
         # Process into matrix according to kfac_approx, add scaling from batch average
         g = process_grad_output(g, module, loss_average, kfac_approx)
 
-- 
2.43.0


From be0141c5885c1d807bf981571a71913655e37011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 18/27] fix: ignore function transformations and vectorized
 backward passes

---
 singd/optim/optimizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index ab8b84b..f55bbd0 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -8,6 +8,7 @@ from warnings import warn
 
 import torch.distributed as dist
 from torch import Tensor, cat, device, dtype, is_grad_enabled, zeros_like
+from torch._C._functorch import is_functorch_wrapped_tensor, is_legacy_batchedtensor
 from torch.nn import Conv2d, Linear, Module, Parameter
 from torch.nn.parallel import DataParallel as DP
 from torch.nn.parallel import DistributedDataParallel as DDP
@@ -620,6 +621,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             inputs: The layer's input tensors.
             grad_output: The gradient w.r.t. the output.
         """
+        # NOTE Function transformations (`torch.func`) and vectorized backward passes
+        # (`is_grads_batched=True`) do not compute `.grad`
+        if is_functorch_wrapped_tensor(grad_output) or is_legacy_batchedtensor(
+            grad_output
+        ):
+            return
+
         loss_average = self._get_param_group_entry(module, "loss_average")
         kfac_approx = self._get_param_group_entry(module, "kfac_approx")
         module_name = self.module_names[module]
-- 
2.43.0


From 036eeb4de4da59d34e94eea6b2eecd5914f515da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 19/27] fix: ignore the hooks of copied models

---
 singd/optim/optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index f55bbd0..fd7b79e 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -599,6 +599,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             inputs: The layer's input tensors.
             output: The layer's output tensor.
         """
+        # NOTE Copies of the model (`copy.deepcopy`, `pickle`) carry along the hooks, but
+        # they are not trained with this optimizer
+        if module not in getattr(self, "module_names", {}):
+            return
+
         # NOTE The pass does not use the optimizer's parameters, e.g. inside of
         # `torch.func.functional_call`
         if all(id(p) not in self.param_to_group_idx for p in module.parameters()):
-- 
2.43.0


From 1733d15eab206dc10dec7a118a7cb26e63b2c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 20/27] fix: keep the off-diagonal blocks when converting
 hierarchical matrices

---
 singd/structures/hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..cbbbcf6 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -158,9 +158,12 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
         A = sym_mat[:K1, :K1]
-        B = 2 * sym_mat[:K1, K1:]
+        B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
         C = sym_mat.diag()[K1 : K1 + diag_dim]
-        D = 2 * sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+        D = (
+            sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+            + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
+        )
         E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
 
         return cls(A, B, C, D, E)
-- 
2.43.0


From acd31750636ab077b03e662916c4909dec696541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 21/27] fix: support the Frobenius norm of empty matrices

---
 singd/structures/blockdiagonal.py | 2 +-
 singd/structures/hierarchical.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index a42abc6..96ad6fd 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -337,7 +337,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             The Frobenius norm of the represented matrix.
         """
         return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
+            cat([t.flatten() for _, t in self.named_tensors()])
         )
 
     ###############################################################################
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index cbbbcf6..7d003b7 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -364,7 +364,7 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
             The Frobenius norm of the represented matrix.
         """
         return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
+            cat([t.flatten() for _, t in self.named_tensors()])
         )
 
     ###############################################################################
-- 
2.43.0


From c5c39c61628b6ee65c4894c3d4ba20e06ce28177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 22/27] fix: avoid overflow in the Frobenius norm of recursive
 matrices

---
 singd/structures/recursive.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/singd/structures/recursive.py b/singd/structures/recursive.py
index f9d6225..4471330 100644
--- a/singd/structures/recursive.py
+++ b/singd/structures/recursive.py
@@ -4,7 +4,8 @@ from __future__ import annotations
 
 from typing import Iterator, List, Tuple, Type, Union
 
-from torch import Tensor, block_diag
+from torch import Tensor, block_diag, cat
+from torch.linalg import vector_norm
 
 from singd.structures.base import StructuredMatrix
 
@@ -73,13 +74,11 @@ class RecursiveStructuredMatrix(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        fro_squared = sum(
-            (t**2).sum() for _, t in self.named_tensors(include_substructures=False)
-        )
-        fro_squared_sub = sum(
-            s.frobenius_norm() ** 2 for _, s in self.named_substructures()
-        )
-        return (fro_squared + fro_squared_sub).sqrt()
+        # NOTE Squared norms could overflow in half precision
+        entries = [
+            t.flatten() for _, t in self.named_tensors(include_substructures=False)
+        ] + [s.frobenius_norm().unsqueeze(0) for _, s in self.named_substructures()]
+        return vector_norm(cat(entries))
 
 
 class RecursiveTopRightMatrixTemplate(RecursiveStructuredMatrix):
-- 
2.43.0


From 110f9a6c3921b7a4e4d6d5c763f1be6519c9cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 23/27] fix: support padding modes other than zeros

---
 singd/optim/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 79fa649..47ab907 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -162,8 +162,14 @@ def conv2d_process_input(x: Tensor, layer: Conv2d, kfac_approx: str) -> Tensor:
     patch_extractor_fn = (
         _extract_patches if kfac_approx == "expand" else _extract_averaged_patches
     )
+    padding = layer.padding
+    if layer.padding_mode != "zeros":
+        x = F.pad(
+            x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode
+        )
+        padding = 0
     x = patch_extractor_fn(
-        x, layer.kernel_size, layer.stride, layer.padding, layer.dilation, layer.groups
+        x, layer.kernel_size, layer.stride, padding, layer.dilation, layer.groups
     )
 
     if kfac_approx == "expand":
-- 
2.43.0


From f972c253aef3f7e6a89b8f9173359b50ad19a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 24/27] fix: support layers that are called with keyword
 arguments

---
 singd/optim/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index fd7b79e..43323d3 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -575,7 +575,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self.Cs[module_name].add_(C @ new_m_C, alpha=-beta1_C)
 
     def _register_tensor_hook_on_output_to_accumulate_H_terms(
-        self, module: Module, inputs: Tuple[Tensor], output: Tensor
+        self,
+        module: Module,
+        inputs: Tuple[Tensor],
+        kwargs: Dict[str, Any],
+        output: Tensor,
     ):
         """Register a tensor hook on the module's output that accumulates the H terms.
 
@@ -596,7 +600,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Args:
             module: Layer onto whose output a tensor hook to compute `H_K` and `H_C`
                 will be installed.
-            inputs: The layer's input tensors.
+            inputs: The layer's input tensors passed as positional arguments.
+            kwargs: The layer's inputs passed as keyword arguments.
             output: The layer's output tensor.
         """
         # NOTE Copies of the model (`copy.deepcopy`, `pickle`) carry along the hooks, but
@@ -611,6 +616,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         T = self._get_param_group_entry(module, "T")
         if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
+            inputs = inputs or (kwargs["input"],)
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
             output.register_hook(tensor_hook)
 
@@ -706,7 +712,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         }
         handles = [
             module.register_forward_hook(
-                self._register_tensor_hook_on_output_to_accumulate_H_terms
+                self._register_tensor_hook_on_output_to_accumulate_H_terms,
+                with_kwargs=True,
             )
             for module in module_names
         ]
-- 
2.43.0


From a027cd251072c68cf9cc85788f8a18f249f01974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 25/27] fix: do not un-scale gradients twice if the gradient
 scaler already did

---
 singd/optim/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 43323d3..fb3b78c 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -754,7 +754,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # un-scale gradients
         grad_scale = self._get_grad_scale(self.steps)
-        if grad_scale != 1.0:
+        # NOTE `GradScaler` passes `None` if gradients are already un-scaled (`unscale_`)
+        already_unscaled = getattr(self, "grad_scale", grad_scale) is None
+        if grad_scale != 1.0 and not already_unscaled:
             grad_mat = grad_mat / grad_scale
 
         # 2) COMPUTE THE NATURAL GRADIENT IN CONCATENATED MATRIX FORM
-- 
2.43.0


From 336f49eff8f9761aaa545c1db47b816ed9b20c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:28 +0000
Subject: [PATCH 26/27] fix: move the loaded state to the devices of the layers

---
 singd/optim/optimizer.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index fb3b78c..7543620 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -977,6 +977,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self._check_preconditioners(attributes["Ks"], attributes["Cs"])
         super().load_state_dict(state_dict)
 
+        # NOTE Like `torch.optim.Optimizer`, move the state to the layers' devices
+        layers = {name: module for module, name in self.module_names.items()}
+        for attr in ["Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs"]:
+            attributes[attr] = {
+                name: self._to_device(mat, layers[name].weight.device)
+                for name, mat in attributes[attr].items()
+            }
+
         for name, value in attributes.items():
             setattr(self, name, value)
 
@@ -984,6 +992,20 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         for name in ["grad_scale", "found_inf"]:
             self.__dict__.pop(name, None)
 
+    @staticmethod
+    def _to_device(mat: StructuredMatrix, dev: device) -> StructuredMatrix:
+        """Move a structured matrix to a device.
+
+        Args:
+            mat: The structured matrix.
+            dev: The device to move to.
+
+        Returns:
+            The structured matrix on the device.
+        """
+        tensors = [t for _, t in mat.named_tensors()]
+        return deepcopy(mat, {id(t): t.to(dev) for t in tensors})
+
     def _check_preconditioners(
         self, Ks: Dict[str, StructuredMatrix], Cs: Dict[str, StructuredMatrix]
     ):
-- 
2.43.0


From d15f8a2aa0640f7dd4fac8a01f5ca387ea0557c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 27/27] fix: multiply Toeplitz matrices with matrices without
 columns

An empty mini-batch made the backward pass fail for pre-conditioners with
Toeplitz structure, but not for the others.
---
 singd/structures/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..e236700 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -106,6 +106,9 @@ def toeplitz_matmul(coeffs: Tensor, mat: Tensor) -> Tensor:
     num_cols = mat.shape[1]
     padding = num_rows - 1
 
+    if num_cols == 0:  # e.g. empty mini-batch, `conv1d` requires at least one group
+        return mat.clone()
+
     # columns act as channels
     conv_input = mat.T
     conv_weight = coeffs.unsqueeze(0).unsqueeze(0).expand(num_cols, -1, -1)
-- 
2.43.0

