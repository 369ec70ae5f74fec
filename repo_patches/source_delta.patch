From 72823634c516490c6018997046ebfe08b2060840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 01/30] fix: compare total, not last-batch, losses in the
 determinism check

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..e967876 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -750,7 +750,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                     total_g2.add_(g2)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From bb657dd0a19d3b0da62456fef60a8d7dc39f7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 02/30] fix: support integer, complex, and negative-stride
 arrays in SciPy export

---
 curvlinops/_torch_base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index e967876..adc76bf 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -371,13 +371,22 @@ class PyTorchLinearOperator:
             Returns:
                 The output matrix in NumPy format.
             """
-            X_torch = as_tensor(X, dtype=dtype, device=device)
+            # treat real and imaginary part separately (the operator is real-valued)
+            if numpy.iscomplexobj(X):
+                return (f_scipy(X.real) + 1j * f_scipy(X.imag)).astype(X.dtype)
+
+            # PyTorch does not support NumPy arrays with negative strides
+            X_torch = as_tensor(
+                numpy.ascontiguousarray(X), dtype=dtype, device=device
+            )
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # do not round results to integers for integer or boolean inputs
+            return AX.astype(X.dtype) if numpy.issubdtype(X.dtype, numpy.floating) else AX
 
         return f_scipy
 
-- 
2.43.0


From 33f438fa801940cfc2251df9a5c6649cedd3dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 03/30] fix: reject 0-d operands with a ValueError

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index adc76bf..b8f337e 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -191,7 +191,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From 5f373e0ac6498e6eab3cf01b27b8df2a0435adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 04/30] fix: use SciPy's default condition number limit in LSMR
 inverse

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..d6db858 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From 296e8e2973875337308424eb149a055cd9fc4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 05/30] fix: do not overwrite the operand list in inverse KFAC
 products

---
 curvlinops/inverse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index d6db858..aba6510 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        X = X.copy()  # do not overwrite entries of the list passed by the user
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 2c3f22f26f863004bbb9a4e19b7f642bb9933a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 06/30] fix: avoid division by zero in heuristic damping for
 zero input covariance

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index aba6510..6b55b45 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -392,7 +392,7 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             # Martens and Grosse, 2015 (https://arxiv.org/abs/1503.05671) (Section 6.3)
             aaT_eig_mean = aaT.trace() / aaT.shape[0]
             ggT_eig_mean = ggT.trace() / ggT.shape[0]
-            if aaT_eig_mean >= 0.0 and ggT_eig_mean > 0.0:
+            if aaT_eig_mean > 0.0 and ggT_eig_mean > 0.0:
                 sqrt_eig_mean_ratio = (aaT_eig_mean / ggT_eig_mean).sqrt()
                 sqrt_damping = sqrt(self._damping)
                 damping_aaT = max(sqrt_damping * sqrt_eig_mean_ratio, self._min_damping)
-- 
2.43.0


From 5c1184cbe1992bc9ef0ddc6dbbfb9d60524d3a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 07/30] fix: support single-column operands in
 SubmatrixLinearOperator

---
 curvlinops/submatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..6c7fe5f 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -63,7 +63,7 @@ class SubmatrixLinearOperator(LinearOperator):
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
         v = zeros((self._A.shape[1],), dtype=self._A.dtype)
-        v[self._col_idxs] = x
+        v[self._col_idxs] = x.ravel()
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0


From 2c20dbd01ec3aa4f7179cd74e72fd8478bb3be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 08/30] fix: support matrix operands in
 OuterProductLinearOperator

---
 curvlinops/outer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/outer.py b/curvlinops/outer.py
index a87c676..675cefb 100644
--- a/curvlinops/outer.py
+++ b/curvlinops/outer.py
@@ -42,7 +42,7 @@ class OuterProductLinearOperator(LinearOperator):
         Returns:
             Result of linear operator applied to the vector.
         """
-        return einsum(self._equation, *self._operands, x, optimize=self._path)
+        return einsum(self._equation, *self._operands, x.ravel(), optimize=self._path)
 
     def _adjoint(self) -> OuterProductLinearOperator:
         """Return the linear operator representing the adjoint.
-- 
2.43.0


From 724f4783bb559fd0357d23ba6123ae18cfc7ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 09/30] fix: support single-class cross-entropy in type-2 KFAC

---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From d06d37c59c13594b04d8a9e06c0c1782eb5d44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 10/30] fix: remove hooks and incomplete factors when computing
 KFAC fails

---
 curvlinops/kfac.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..780148b 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -426,18 +426,24 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 )
             )
 
-        # loop over data set, computing the Kronecker factors
-        if self._generator is None or self._generator.device != self._device:
-            self._generator = Generator(device=self._device)
-        self._generator.manual_seed(self._seed)
-
-        for X, y in self._loop_over_data(desc="KFAC matrices"):
-            output = self._model_func(X)
-            self._compute_loss_and_backward(output, y)
-
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
+        try:
+            # loop over data set, computing the Kronecker factors
+            if self._generator is None or self._generator.device != self._device:
+                self._generator = Generator(device=self._device)
+            self._generator.manual_seed(self._seed)
+
+            for X, y in self._loop_over_data(desc="KFAC matrices"):
+                output = self._model_func(X)
+                self._compute_loss_and_backward(output, y)
+        except BaseException:
+            # do not keep incomplete Kronecker factors
+            self._input_covariances.clear()
+            self._gradient_covariances.clear()
+            raise
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
 
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
-- 
2.43.0


From 4e20e268dd6cc7603ef12caa735ff80cb1b64c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 11/30] fix: verify the loaded, not the current, KFAC state and
 reject it without side effects

---
 curvlinops/kfac.py | 59 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 780148b..9278baa 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -19,6 +19,7 @@ and generalized to all linear layers with weight sharing in
 from __future__ import annotations
 
 from collections.abc import MutableMapping
+from copy import deepcopy
 from enum import Enum, EnumMeta
 from functools import partial
 from math import sqrt
@@ -977,8 +978,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            ValueError: If the state dict does not match the linear operator's layers.
         """
-        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
         # Verify that the loss function and its reduction match the state dict
         loss_func_type = {
             "MSELoss": MSELoss,
@@ -995,6 +996,16 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
 
+        # Load the model and verify that the remaining state matches its layers. Restore
+        # the model if this fails, such that a rejected state dict has no effect.
+        old_model_state = deepcopy(self._model_func.state_dict())
+        try:
+            self._model_func.load_state_dict(state_dict["model_func_state_dict"])
+            self._verify_state_dict_matches_layers(state_dict)
+        except Exception:
+            self._model_func.load_state_dict(old_model_state)
+            raise
+
         # Set attributes
         self._progressbar = state_dict["progressbar"]
         self.shape = state_dict["shape"]
@@ -1007,22 +1018,6 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
-            # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
-            mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
-            ):
-                raise ValueError(
-                    "Input or gradient covariance keys in state dict do not match "
-                    "mapping keys of linear operator. "
-                    "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
-                    "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
-                )
         self._input_covariances = state_dict["input_covariances"]
         self._gradient_covariances = state_dict["gradient_covariances"]
 
@@ -1032,6 +1027,36 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._logdet = state_dict["logdet"]
         self._frobenius_norm = state_dict["frobenius_norm"]
 
+    def _verify_state_dict_matches_layers(self, state_dict: Dict[str, Any]):
+        """Verify that a state dict's shape and Kronecker factors match the layers.
+
+        Args:
+            state_dict: State dictionary.
+
+        Raises:
+            ValueError: If the shape or the layers of the Kronecker factors mismatch.
+        """
+        if tuple(state_dict["shape"]) != tuple(self.shape):
+            raise ValueError(f"Shape mismatch: {state_dict['shape']} != {self.shape}.")
+
+        input_keys = set(state_dict["input_covariances"].keys())
+        gradient_keys = set(state_dict["gradient_covariances"].keys())
+        if not input_keys and not gradient_keys:  # not computed
+            return
+
+        # only layers whose weight is considered have an input covariance
+        mapping_keys = set(self._mapping.keys())
+        weight_keys = {name for name, pos in self._mapping.items() if "weight" in pos}
+        if input_keys != weight_keys or gradient_keys != mapping_keys:
+            raise ValueError(
+                "Input or gradient covariance keys in state dict do not match "
+                "mapping keys of linear operator. "
+                "Difference between input covariance and mapping keys: "
+                f"{input_keys ^ weight_keys}. "
+                "Difference between gradient covariance and mapping keys: "
+                f"{gradient_keys ^ mapping_keys}."
+            )
+
     @classmethod
     def from_state_dict(
         cls,
-- 
2.43.0


From a1cb4df0648a06321f812f300a4b4c7d3d5396c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 12/30] fix: do not share factor dictionaries between KFAC
 operators and checkpoints

---
 curvlinops/inverse.py | 10 ++++++----
 curvlinops/kfac.py    |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 6b55b45..ac204c7 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -680,8 +680,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             "cache": self._cache,
             "retry_double_precision": self._retry_double_precision,
             # Inverse Kronecker factors (if computed and cached)
-            "inverse_input_covariances": self._inverse_input_covariances,
-            "inverse_gradient_covariances": self._inverse_gradient_covariances,
+            "inverse_input_covariances": self._inverse_input_covariances.copy(),
+            "inverse_gradient_covariances": self._inverse_gradient_covariances.copy(),
         }
 
     def load_state_dict(self, state_dict: Dict[str, Any]):
@@ -701,8 +701,10 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         self._retry_double_precision = state_dict["retry_double_precision"]
 
         # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = state_dict["inverse_input_covariances"]
-        self._inverse_gradient_covariances = state_dict["inverse_gradient_covariances"]
+        self._inverse_input_covariances = state_dict["inverse_input_covariances"].copy()
+        self._inverse_gradient_covariances = state_dict[
+            "inverse_gradient_covariances"
+        ].copy()
 
     @classmethod
     def from_state_dict(
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 9278baa..c6330fd 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -960,8 +960,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "separate_weight_and_bias": self._separate_weight_and_bias,
             "num_data": self._N_data,
             # Kronecker factors (if computed)
-            "input_covariances": self._input_covariances,
-            "gradient_covariances": self._gradient_covariances,
+            "input_covariances": self._input_covariances.copy(),
+            "gradient_covariances": self._gradient_covariances.copy(),
             # Properties (not necessarily computed)
             "trace": self._trace,
             "det": self._det,
@@ -1018,8 +1018,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        self._input_covariances = state_dict["input_covariances"]
-        self._gradient_covariances = state_dict["gradient_covariances"]
+        self._input_covariances = state_dict["input_covariances"].copy()
+        self._gradient_covariances = state_dict["gradient_covariances"].copy()
 
         # Set properties (not necessarily computed)
         self._trace = state_dict["trace"]
-- 
2.43.0


From 1f84df90d2493d7e24aacea7e77077df9a35d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 13/30] fix: do not cache incomplete Hutch++ trace if a product
 fails

---
 curvlinops/trace/meyer2020hutch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/curvlinops/trace/meyer2020hutch.py b/curvlinops/trace/meyer2020hutch.py
index e37f32e..4053412 100644
--- a/curvlinops/trace/meyer2020hutch.py
+++ b/curvlinops/trace/meyer2020hutch.py
@@ -143,10 +143,13 @@ class HutchPPTraceEstimator:
                 for _ in range(self._basis_dim)
             ]
         )
-        self._Q, _ = qr(AS)
+        Q, _ = qr(AS)
 
-        self._tr_QT_A_Q = 0.0
+        tr_QT_A_Q = 0.0
         for i in range(self._basis_dim):
-            v = self._Q[:, i]
+            v = Q[:, i]
             Av = self._A @ v
-            self._tr_QT_A_Q += dot(v, Av)
+            tr_QT_A_Q += dot(v, Av)
+
+        # only cache once everything has been computed successfully
+        self._Q, self._tr_QT_A_Q = Q, tr_QT_A_Q
-- 
2.43.0


From 50e6a605516af17d3956ce7408404ee4c5050f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 14/30] fix: support matrices without columns in Jacobian
 products

---
 curvlinops/jacobian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvlinops/jacobian.py b/curvlinops/jacobian.py
index ff7f938..99f2e6d 100644
--- a/curvlinops/jacobian.py
+++ b/curvlinops/jacobian.py
@@ -103,6 +103,9 @@ class JacobianLinearOperator(CurvatureLinearOperator):
         for X, _ in self._loop_over_data(desc="_matmat"):
             output = self._model_func(X)
 
+            if num_vecs == 0:  # nothing to multiply with or to stack
+                JM.append(output.detach().new_empty(*output.shape, 0))
+                continue
             # multiply the mini-batch Jacobian onto all vectors
             JM_col = [
                 jvp(output, self._params, [m[..., n] for m in M])[0]
-- 
2.43.0


From b4ea25386d3407422153a34c5303874b212a696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 15/30] fix: store copies of and reject booleans in sub-matrix
 indices

---
 curvlinops/submatrix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 6c7fe5f..6f96a4b 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -40,7 +40,7 @@ class SubmatrixLinearOperator(LinearOperator):
         shape = []
 
         for ax_idx, idxs in enumerate([row_idxs, col_idxs]):
-            if any(not isinstance(i, int) for i in idxs):
+            if any(not isinstance(i, int) or isinstance(i, bool) for i in idxs):
                 raise ValueError("Index lists must contain integers.")
             if len(idxs) != len(set(idxs)):
                 raise ValueError("Index lists cannot contain duplicates.")
@@ -49,8 +49,9 @@ class SubmatrixLinearOperator(LinearOperator):
             shape.append(len(idxs))
 
         super().__init__(self._A.dtype, shape)
-        self._row_idxs = row_idxs
-        self._col_idxs = col_idxs
+        # store copies such that later modifications do not affect the sub-matrix
+        self._row_idxs = list(row_idxs)
+        self._col_idxs = list(col_idxs)
 
     def _matvec(self, x: ndarray) -> ndarray:
         """Multiply x by the sub-matrix of A.
-- 
2.43.0


From 284b3d70ddc97c40d7a6d72e519166935f32a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 16/30] fix: do not cast sub-matrix operands to the base
 operator's data type

---
 curvlinops/submatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 6f96a4b..350cf88 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -63,7 +63,7 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
         v[self._col_idxs] = x.ravel()
         Av = self._A @ v
 
-- 
2.43.0


From f59d040f1d80504c8b06f8cb73a685a3f1c01255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 17/30] fix: consider all batches in the determinism check if
 their number varies

---
 curvlinops/_torch_base.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index b8f337e..6fb2344 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from itertools import zip_longest
 from typing import (
     Callable,
     Iterable,
@@ -735,10 +736,16 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
         # loop twice over the data loader, accumulate total quantities and compare
         # batch quantities if the linear operator demands fixed data order
-        for ((X1, y1), pred1, loss1, grad1), ((X2, y2), pred2, loss2, grad2) in zip(
+        for batch1, batch2 in zip_longest(
             self.data_prediction_loss_gradient(), self.data_prediction_loss_gradient()
         ):
             if self.FIXED_DATA_ORDER:
+                if batch1 is None or batch2 is None:
+                    raise RuntimeError(
+                        "Check for deterministic number of batches failed."
+                    )
+                (X1, y1), pred1, loss1, grad1 = batch1
+                (X2, y2), pred2, loss2, grad2 = batch2
                 self.__check_deterministic_batch(
                     (X1, X2),
                     (y1, y2),
@@ -751,12 +758,14 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
             # accumulate total quantities
             if self._loss_func is not None:
-                total_loss1.add_(loss1)
-                total_loss2.add_(loss2)
-                for total_g1, g1 in zip(total_grad1, grad1):
-                    total_g1.add_(g1)
-                for total_g2, g2 in zip(total_grad2, grad2):
-                    total_g2.add_(g2)
+                if batch1 is not None:
+                    total_loss1.add_(batch1[2])
+                    for total_g1, g1 in zip(total_grad1, batch1[3]):
+                        total_g1.add_(g1)
+                if batch2 is not None:
+                    total_loss2.add_(batch2[2])
+                    for total_g2, g2 in zip(total_grad2, batch2[3]):
+                        total_g2.add_(g2)
 
         if self._loss_func is not None:
             if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
-- 
2.43.0


From 060b03983880c14d983c83b174a7a4833f8a0954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 18/30] fix: do not modify the loss function's result in-place

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 6fb2344..4810ebd 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -651,7 +651,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                 loss, grad_params = None, None
             else:
                 normalization_factor = self._get_normalization_factor(X, y)
-                loss = self._loss_func(prediction, y).mul_(normalization_factor)
+                loss = self._loss_func(prediction, y) * normalization_factor
                 grad_params = [g.detach() for g in grad(loss, self._params)]
                 loss.detach_()
 
-- 
2.43.0


From e7c64d451bb44d6a01a92747fac393cf8becaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 19/30] fix: protect the stored activation from in-place
 operations

---
 curvlinops/experimental/activation_hessian.py | 57 ++++++++++++++-----
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index 33f6c6b..e9b9aca 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -263,7 +263,11 @@ class store_activation:
     def __enter__(self) -> None:
         """Install hook that appends the requested activation to the destination."""
         mod = self._model.get_submodule(self._module_name)
-        self._hook_handles.append(mod.register_forward_hook(self.hook))
+        self._hook_handles.append(
+            mod.register_forward_pre_hook(self.input_hook)
+            if self._io_type == "input"
+            else mod.register_forward_hook(self.output_hook)
+        )
 
     def __exit__(
         self,
@@ -281,13 +285,30 @@ class store_activation:
         for handle in self._hook_handles:
             handle.remove()
 
-    def hook(
+    def input_hook(self, module: Module, inputs: Tuple[Tensor]) -> Tuple[Tensor]:
+        """Pre-forward hook that appends the requested input to the destination.
+
+        Modifies ``self._destination`` in-place.
+
+        Args:
+            module: Layer onto which the hook is installed.
+            inputs: Layer inputs.
+
+        Returns:
+            The layer inputs. The stored tensor is replaced with a copy to make sure it
+            is not modified by in-place operations like ``ReLU(inplace=True)``.
+        """
+        store = inputs[self._io_idx]
+        self._destination.append(store)
+        return tuple(store.clone() if x is store else x for x in inputs)
+
+    def output_hook(
         self,
         module: Module,
         inputs: Tuple[Tensor],
         output: Union[Tensor, Tuple[Tensor]],
-    ):
-        """Forward hook that appends the requested activation to the destination.
+    ) -> Union[Tensor, Tuple[Tensor]]:
+        """Forward hook that appends the requested output to the destination.
 
         Modifies ``self._destination`` in-place.
 
@@ -296,19 +317,25 @@ class store_activation:
             inputs: Layer inputs.
             output: Layer outputs.
 
+        Returns:
+            The layer outputs. The stored tensor is replaced with a copy to make sure it
+            is not modified by in-place operations like ``ReLU(inplace=True)``.
+
         Raises:
-            ValueError: If the requested in/output index does not exist.
+            ValueError: If the requested output index does not exist.
         """
-        idx, io_type = self._io_idx, self._io_type
-
-        if io_type == "output" and isinstance(output, Tensor) and idx != 0:
-            raise ValueError(
-                f"Output is a single tensor, but specified index is {idx}."
-            )
+        idx = self._io_idx
 
-        if io_type == "input":
-            store = inputs[idx]
-        else:
-            store = output if isinstance(output, Tensor) else output[idx]
+        if isinstance(output, Tensor):
+            if idx != 0:
+                raise ValueError(
+                    f"Output is a single tensor, but specified index is {idx}."
+                )
+            self._destination.append(output)
+            return output.clone()
 
+        store = output[idx]
         self._destination.append(store)
+        if type(output) is tuple:
+            output = tuple(store.clone() if x is store else x for x in output)
+        return output
-- 
2.43.0


From f056ced1583b8c7fe73e2da06cb42a8f4e071a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 20/30] fix: respect padding mode of convolutions in KFAC

---
 curvlinops/kfac.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index c6330fd..4542007 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -37,6 +37,7 @@ from torch.nn import (
     MSELoss,
     Parameter,
 )
+from torch.nn.functional import pad
 from torch.utils.hooks import RemovableHandle
 
 from curvlinops._torch_base import CurvatureLinearOperator
@@ -695,11 +696,18 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 KFACType.EXPAND: extract_patches,
                 KFACType.REDUCE: extract_averaged_patches,
             }[self._kfac_approx]
+            padding = module.padding
+            if module.padding_mode != "zeros":
+                # the patch extraction only supports zero padding, hence pad explicitly
+                x = pad(
+                    x, module._reversed_padding_repeated_twice, mode=module.padding_mode
+                )
+                padding = 0
             x = patch_extractor_fn(
                 x,
                 module.kernel_size,
                 module.stride,
-                module.padding,
+                padding,
                 module.dilation,
                 module.groups,
             )
-- 
2.43.0


From cbfa28a84a5f64e61cb6b24a0c3105ea6fbae6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 21/30] fix: do not differentiate through the sampled would-be
 gradients of the MC-Fisher

---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..0997409 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From e150e84acf1fbf5a384fc3af18329d341ecd4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 22/30] fix: support negative strides along singleton axes in
 SciPy export

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 4810ebd..1080e4e 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -378,7 +378,7 @@ class PyTorchLinearOperator:
 
             # PyTorch does not support NumPy arrays with negative strides
             X_torch = as_tensor(
-                numpy.ascontiguousarray(X), dtype=dtype, device=device
+                numpy.array(X, order="C"), dtype=dtype, device=device
             )
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
-- 
2.43.0


From 001caeb70fe162f69838e40cf1b23a4f93a97d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 23/30] fix: CG inverse must not use its relative as absolute
 tolerance by default

SciPy interprets atol=None as atol=rtol, hence right-hand sides with small norm
were 'solved' by the zero vector.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index ac204c7..3654337 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -55,7 +55,7 @@ class CGInverseLinearOperator(_InverseLinearOperator):
         maxiter: Optional[int] = None,
         M: Optional[Union[ndarray, LinearOperator]] = None,
         callback: Optional[Callable] = None,
-        atol: Optional[float] = None,
+        atol: Optional[float] = 0.0,
         tol: Optional[float] = 1e-5,
     ):
         """Store hyperparameters for CG.
-- 
2.43.0


From 254eb9d67d8b0c28830603582e3e1c2626cf22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 24/30] fix: shape of LSMR inverse for rectangular operators

---
 curvlinops/inverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 3654337..9539029 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -101,7 +101,8 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         Args:
             A: Linear operator whose inverse is formed.
         """
-        super().__init__(A.dtype, A.shape)
+        # NOTE the (pseudo-)inverse of a rectangular operator has transposed shape
+        super().__init__(A.dtype, A.shape[::-1])
         self._A = A
 
         # LSMR hyperparameters
-- 
2.43.0


From cae637b33ee24e1d1d29cde157ad84cd80a1adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 25/30] fix: single-column operands for LSMR inverses of
 one-dimensional operators

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 9539029..2c38dae 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -162,7 +162,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         Returns:
              Result of inverse matrix-vector multiplication, ``A⁻¹ @ x``.
         """
-        return self.matvec_with_info(x)[0]
+        return self.matvec_with_info(x.ravel())[0]
 
 
 class NeumannInverseLinearOperator(_InverseLinearOperator):
-- 
2.43.0


From 96a3dd26142fa65ab567e3a1494a8b3d09c99791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 26/30] fix: CG inverse must not return the operand itself if
 it is zero

---
 curvlinops/inverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 2c38dae..b8c19a5 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -85,7 +85,8 @@ class CGInverseLinearOperator(_InverseLinearOperator):
         Returns:
              Result of inverse matrix-vector multiplication, ``A⁻¹ @ x``.
         """
-        result, _ = cg(self._A, x, **self._cg_hyperparameters)
+        # SciPy returns its right-hand side, not a copy, if that is zero
+        result, _ = cg(self._A, x.copy(), **self._cg_hyperparameters)
         return result
 
 
-- 
2.43.0


From bfdfa4d68b0852f185d23ea8671c456a728bf0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 27/30] fix: determinism check must not broadcast quantities of
 different shape

---
 curvlinops/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvlinops/utils.py b/curvlinops/utils.py
index 5b0395b..950d9cd 100644
--- a/curvlinops/utils.py
+++ b/curvlinops/utils.py
@@ -40,8 +40,13 @@ def allclose_report(
         atol: Absolute tolerance. Default is ``1e-8``.
 
     Returns:
-        ``True`` if the tensors are close, ``False`` otherwise.
+        ``True`` if the tensors are close, ``False`` otherwise. Tensors of different
+        shape are not close.
     """
+    if tensor1.shape != tensor2.shape:
+        print(f"Shapes differ: {tuple(tensor1.shape)} vs. {tuple(tensor2.shape)}.")
+        return False
+
     close = tensor1.allclose(tensor2, rtol=rtol, atol=atol)
     if not close:
         # print non-close values
-- 
2.43.0


From 354f2536de7b695e9844d372695e813e82732e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 28/30] fix: do not cache incomplete KFAC determinants if their
 computation fails

---
 curvlinops/kfac.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 4542007..f6add71 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -795,7 +795,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._trace = 0.0
+        trace = 0.0
         for mod_name, param_pos in self._mapping.items():
             tr_ggT = self._gradient_covariances[mod_name].trace()
             if (
@@ -803,14 +803,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "weight" in param_pos.keys()
                 and "bias" in param_pos.keys()
             ):
-                self._trace += self._input_covariances[mod_name].trace() * tr_ggT
+                trace += self._input_covariances[mod_name].trace() * tr_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._trace += tr_ggT * (
+                    trace += tr_ggT * (
                         self._input_covariances[mod_name].trace()
                         if p_name == "weight"
                         else 1
                     )
+        self._trace = trace
         return self._trace
 
     @property
@@ -832,7 +833,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._det = 1.0
+        det = 1.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             det_ggT = self._gradient_covariances[mod_name].det()
@@ -843,7 +844,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 det_aaT = self._input_covariances[mod_name].det()
-                self._det *= det_aaT.pow(m) * det_ggT.pow(n)
+                det *= det_aaT.pow(m) * det_ggT.pow(n)
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -851,11 +852,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._det *= det_ggT.pow(n) * (
+                    det *= det_ggT.pow(n) * (
                         self._input_covariances[mod_name].det().pow(m)
                         if p_name == "weight"
                         else 1
                     )
+        self._det = det
         return self._det
 
     @property
@@ -878,7 +880,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._logdet = 0.0
+        logdet = 0.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             logdet_ggT = self._gradient_covariances[mod_name].logdet()
@@ -889,7 +891,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 logdet_aaT = self._input_covariances[mod_name].logdet()
-                self._logdet += m * logdet_aaT + n * logdet_ggT
+                logdet += m * logdet_aaT + n * logdet_ggT
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -897,11 +899,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._logdet += n * logdet_ggT + (
+                    logdet += n * logdet_ggT + (
                         m * self._input_covariances[mod_name].logdet()
                         if p_name == "weight"
                         else 0
                     )
+        self._logdet = logdet
         return self._logdet
 
     @property
@@ -921,7 +924,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._frobenius_norm = 0.0
+        frobenius_norm = 0.0
         for mod_name, param_pos in self._mapping.items():
             squared_frob_ggT = self._gradient_covariances[mod_name].square().sum()
             if (
@@ -930,15 +933,16 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "bias" in param_pos.keys()
             ):
                 squared_frob_aaT = self._input_covariances[mod_name].square().sum()
-                self._frobenius_norm += squared_frob_aaT * squared_frob_ggT
+                frobenius_norm += squared_frob_aaT * squared_frob_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._frobenius_norm += squared_frob_ggT * (
+                    frobenius_norm += squared_frob_ggT * (
                         self._input_covariances[mod_name].square().sum()
                         if p_name == "weight"
                         else 1
                     )
-        self._frobenius_norm.sqrt_()
+        frobenius_norm.sqrt_()
+        self._frobenius_norm = frobenius_norm
         return self._frobenius_norm
 
     def state_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From d636c32e11338d327262f8a5433084010850d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 29/30] fix: determinism check flags mini-batches with
 differing keys

---
 curvlinops/_torch_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 1080e4e..e5d3277 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -805,6 +805,8 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
         """
         X1, X2 = Xs
         if isinstance(X1, MutableMapping) and isinstance(X2, MutableMapping):
+            if set(X1.keys()) != set(X2.keys()):
+                raise RuntimeError("Check for deterministic X failed.")
             for k in X1.keys():
                 v1, v2 = X1[k], X2[k]
                 if isinstance(v1, Tensor) and not allclose_report(
-- 
2.43.0


From a25c2cab9f4d9863fe0f92097510c2eb92375a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 30/30] fix: KFAC's scalar properties do not hand out their
 cache

---
 curvlinops/kfac.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index f6add71..f745cec 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -790,7 +790,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             Trace of the KFAC approximation.
         """
         if self._trace is not None:
-            return self._trace
+            return self._trace.clone()
 
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
@@ -812,7 +812,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         else 1
                     )
         self._trace = trace
-        return self._trace
+        return self._trace.clone()
 
     @property
     def det(self) -> Tensor:
@@ -828,7 +828,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             Determinant of the KFAC approximation.
         """
         if self._det is not None:
-            return self._det
+            return self._det.clone()
 
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
@@ -858,7 +858,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         else 1
                     )
         self._det = det
-        return self._det
+        return self._det.clone()
 
     @property
     def logdet(self) -> Tensor:
@@ -875,7 +875,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             Log determinant of the KFAC approximation.
         """
         if self._logdet is not None:
-            return self._logdet
+            return self._logdet.clone()
 
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
@@ -905,7 +905,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         else 0
                     )
         self._logdet = logdet
-        return self._logdet
+        return self._logdet.clone()
 
     @property
     def frobenius_norm(self) -> Tensor:
@@ -919,7 +919,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             Frobenius norm of the KFAC approximation.
         """
         if self._frobenius_norm is not None:
-            return self._frobenius_norm
+            return self._frobenius_norm.clone()
 
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
@@ -943,7 +943,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     )
         frobenius_norm.sqrt_()
         self._frobenius_norm = frobenius_norm
-        return self._frobenius_norm
+        return self._frobenius_norm.clone()
 
     def state_dict(self) -> Dict[str, Any]:
         """Return the state of the KFAC linear operator.
-- 
2.43.0

