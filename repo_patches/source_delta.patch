From 8c0ef585401f7855140627d668237ae7ea6594bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 01/22] fix: Keep the order of measures when combining
 processes

---
 stheno/model/gp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..c2c613a 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -32,12 +32,15 @@ def intersection_measure_group(*ps):
 
     Args:
         *ps (:class:`.gp.GP`): Processes.
+
+    Returns:
+        list[:class:`.measure.Measure`]: Intersection, in the order in which the first
+            process was associated to the measures. The first element is therefore the
+            measure that all processes were constructed with.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
-    for p in ps[1:]:
-        intersection &= set(p._measures)
-    return intersection
+    others = [set(p._measures) for p in ps[1:]]
+    return [m for m in ps[0]._measures if all(m in other for other in others)]
 
 
 def cross(*ps):
-- 
2.43.0


From 9d1ada2c28b405fff82d4c1275bf069143b97b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 02/22] fix: Do not change names when the new name is already
 taken

---
 stheno/model/gp.py      |  3 +++
 stheno/model/measure.py | 16 ++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index c2c613a..fcb3ff7 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -131,6 +131,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # First check all measures, so that nothing changes if the name is taken.
+        for measure in self._measures:
+            measure._check_name(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..ad9180d 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -75,21 +75,25 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that the name is not in use before changing anything.
+        self._check_name(p, name)
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
 
+    def _check_name(self, p, name):
+        # Check that the name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     def _add_p(self, p):
         # Attach process to measure.
         self.ps.append(p)
-- 
2.43.0


From abdb0fd2058f294e4ab91a86e9e7783bbaef2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 03/22] fix: Restore the right default measure when a measure
 is re-entered

---
 stheno/model/measure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ad9180d..38ebb03 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -44,15 +44,16 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        # Measures can be entered more than once, so keep a stack of previous defaults.
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(Measure.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From 39067d7ac31e36eaff3c6a82627384acbf932f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 04/22] fix: Resolve an omitted mean and the variance in
 mean_var and marginals

---
 stheno/random.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..5dddf5b 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -173,18 +173,11 @@ class Normal(RandomVector):
     @property
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
-        if self._mean is not None and self._var is not None:
-            return self._mean, self._var
-        elif self._mean is not None:
-            return self._mean, self.var
-        elif self._var is not None:
-            return self.mean, self._var
-        else:
+        if self._mean is None and self._var is None:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
-                self._resolve_mean(construct_zeros=True)
-                self._resolve_var()
-            return self.mean, self.var
+        # Go through the properties to ensure that the mean and variance are resolved.
+        return self.mean, self.var
 
     @property
     def dtype(self):
@@ -207,17 +200,11 @@ class Normal(RandomVector):
         Returns:
             tuple: A tuple containing the marginal means and marginal variances.
         """
-        if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
-        elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
-        elif self._var_diag is not None:
-            mean, var_diag = self.mean, self._var_diag
-        else:
+        if self._mean is None and self._var_diag is None:
             if self._construct_mean_var_diag is not None:
                 self._mean, self._var_diag = self._construct_mean_var_diag()
-                self._resolve_mean(construct_zeros=True)
-            mean, var_diag = self.mean, self.var_diag
+        # Go through the properties to ensure that the mean is resolved.
+        mean, var_diag = self.mean, self.var_diag
         # It can happen that the variances are slightly negative due to numerical noise.
         # Prevent NaNs from the following square root by taking the maximum with zero.
         # Also strip away any matrix structure.
-- 
2.43.0


From bedcffedf18f5098634787494ebd785fa9cfcd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 05/22] fix: Use right_rule in Measure.add_gp

---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 38ebb03..7246df9 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -138,7 +138,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule=right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From 72f648adf1aeb93e8e2e2672c6aaa9555c61d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 06/22] fix: Account for the number of outputs in sizes of
 multi-output processes

---
 stheno/mo/infer.py      | 6 +++++-
 stheno/mo/kernel.py     | 5 +++--
 stheno/mo/mean.py       | 4 +++-
 stheno/model/measure.py | 3 ++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..670da13 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -42,7 +42,11 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    if isinstance(x.p, int):
+        # Only the `id` of the process is known.
+        return Dimension(num_elements(x))
+    # The process of `x` determines the number of outputs, not `k`.
+    return infer_size(x.p.kernel, x.x)
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..ed4832d 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -5,7 +5,7 @@ from mlkernels import (
     elwise,
 )
 
-from .infer import infer_size
+from .infer import dimensionality, infer_size
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputKernel"]
@@ -78,7 +78,8 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    # The processes may be multi-output processes themselves.
+    return sum([dimensionality(k.measure.kernels[p]) for p in k.ps])
 
 
 @_dispatch
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 6e9b6e4..4372532 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -1,6 +1,7 @@
 from lab import B
 from mlkernels import Mean
 
+from .infer import dimensionality
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputMean"]
@@ -43,4 +44,5 @@ class MultiOutputMean(Mean):
 
 @_dispatch
 def dimensionality(m: MultiOutputMean):
-    return len(m.ps)
+    # The processes may be multi-output processes themselves.
+    return sum([dimensionality(m.measure.kernels[p]) for p in m.ps])
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 7246df9..8f5c94c 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -443,7 +444,7 @@ class Measure:
         state, sample = self(combine(*fdds)).sample(state, n)
 
         # Unpack sample.
-        lengths = [num_elements(fdd) for fdd in fdds]
+        lengths = [infer_size(fdd.p.kernel, fdd.x) for fdd in fdds]
         i, samples = 0, []
         for length in lengths:
             samples.append(sample[..., i : i + length, :])
-- 
2.43.0


From 24485a05d1d16cd56b44479a89d99e5bdebc0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 07/22] fix: Include the covariance in the mean of a product of
 processes

---
 stheno/model/measure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 8f5c94c..a7901e6 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -3,7 +3,7 @@ from typing import Union
 
 from lab import B
 from matrix import Constant
-from mlkernels import TensorProductKernel, ZeroKernel, num_elements
+from mlkernels import TensorProductKernel, TensorProductMean, ZeroKernel, num_elements
 
 from .. import PromisedMeasure, _dispatch
 from ..lazy import LazyMatrix, LazyVector
@@ -264,9 +264,15 @@ class Measure:
             self.mul(GP(), lambda x: self.means[p1](x), p2),
             self.mul(GP(), p1, lambda x: self.means[p2](x)),
         )
+        # If the processes are correlated, then their covariance contributes to the mean
+        # of the product.
+        mean = -self.means[p1] * self.means[p2]
+        k12 = self.kernels[p1, p2]
+        if not isinstance(k12, ZeroKernel):
+            mean = mean + TensorProductMean(lambda x: k12.elwise(x))
         term2 = self.add_independent_gp(
             GP(),
-            -self.means[p1] * self.means[p2],
+            mean,
             (
                 self.kernels[p1] * self.kernels[p2]
                 + self.kernels[p1, p2] * self.kernels[p2, p1]
-- 
2.43.0


From 50c1f60cf0d0bc31a1faa6ea9155949787d5ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 08/22] fix: Handle scalar inputs when selecting available data

---
 stheno/model/fdd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..2963a5a 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -134,7 +134,8 @@ def take(fdd: FDD, indices_or_mask: B.Numeric):
 
 @_dispatch
 def _take_x(k: Kernel, x: B.Numeric, mask: B.Numeric):
-    return B.take(x, mask)
+    # A scalar input is a single input.
+    return B.take(B.uprank(x, rank=1), mask)
 
 
 @_dispatch
-- 
2.43.0


From 00b259e05acd01d94e2d7c1a880b4348ba6b1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 09/22] fix: Subtract functions from processes

---
 stheno/model/gp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index fcb3ff7..b18c3ba 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -179,6 +179,15 @@ class GP(RandomProcess):
             measure.sum(res, self, other)
         return res
 
+    @_dispatch
+    def __sub__(self, other):
+        return RandomProcess.__sub__(self, other)
+
+    @_dispatch
+    def __sub__(self, other: FunctionType):
+        # Functions cannot be negated.
+        return self + (lambda x: -other(x))
+
     @_dispatch
     def __mul__(self, other: Union[B.Numeric, FunctionType]):
         res = GP()
-- 
2.43.0


From 8e5b6fe2cd29f106ab3684cf5c47b5eb5042fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 10/22] fix: Reject observations of processes of other measures

---
 stheno/model/measure.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a7901e6..ec53de8 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -381,6 +381,17 @@ class Measure:
         Returns:
             list[:class:`.gp.GP`]: Posterior processes.
         """
+        # Processes would become unusable under a posterior that cannot be computed.
+        fdds = [obs.fdd]
+        if isinstance(obs, AbstractPseudoObservations):
+            fdds.append(obs.u)
+        for fdd in fdds:
+            if id(fdd.p) not in self._pids:
+                raise AssertionError(
+                    f"Cannot condition on {fdd.p}, which is not associated to the "
+                    f"measure."
+                )
+
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
-- 
2.43.0


From dc223e077a630a2b7aa64f810a7dee2739a253b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 11/22] fix: Handle structured means in divergences between
 distributions

---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 5dddf5b..e49d9ac 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -289,7 +289,7 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            B.iqf_diag(other.var, B.subtract(other.mean, self.mean))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -310,7 +310,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 5d9ac338c9285ea9cf7933c6fbf8fd768fba0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 12/22] fix: Give a zero mean the batch dimensions of the
 variance

---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index e49d9ac..74ea3f9 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -101,7 +101,7 @@ class Normal(RandomVector):
             zero_matrix = isinstance(self._mean, Zero)
             self._mean_is_zero = identically_zero or zero_matrix
         if identical(self._mean, 0) and construct_zeros:
-            self._mean = B.zeros(self.dtype, self.dim, 1)
+            self._mean = B.zeros(self.dtype, *B.shape_batch(self.var), self.dim, 1)
 
     def _resolve_var(self):
         if self._var is None:
-- 
2.43.0


From 31a68c6581cc144fd2180a1d3323a0ea78f820c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 13/22] fix: Do not sum over batches in the Wasserstein
 distance

---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 74ea3f9..7d39b05 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -310,7 +310,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2, axis=(-2, -1))
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 4e9790b607f4246f46523d31e6ae1e2b38bf5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:05 +0000
Subject: [PATCH 14/22] fix: Support batches in second moments

---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 7d39b05..be8b8fd 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -192,7 +192,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return B.add(self.var, B.outer(self.mean))
 
     def marginals(self):
         """Get the marginals.
-- 
2.43.0


From 3a10a15b7c5a9c98d55ad3bdc6419382f959ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 15/22] fix: Do not change the precision with noise given as a
 number

---
 stheno/model/fdd.py | 9 +++++++++
 stheno/random.py    | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 2963a5a..014778d 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -1,4 +1,5 @@
 import mlkernels
+import numpy as np
 from lab import B
 from matrix import AbstractMatrix, Dense, Zero, Diagonal
 from mlkernels import Kernel, num_elements
@@ -26,6 +27,14 @@ def _noise_as_matrix(noise: type(None), dtype: B.DType, n: B.Int):
     return Zero(dtype, n, n)
 
 
+@_dispatch
+def _noise_as_matrix(noise: B.Number, dtype: B.DType, n: B.Int):
+    # A number should not change the precision of the computation.
+    if B.issubdtype(dtype, np.floating):
+        noise = B.cast(dtype, noise)
+    return B.fill_diag(noise, n)
+
+
 @_dispatch
 def _noise_as_matrix(noise: B.Numeric, dtype: B.DType, n: B.Int):
     if B.is_scalar(noise):
diff --git a/stheno/random.py b/stheno/random.py
index be8b8fd..f706e92 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -1,6 +1,7 @@
 from types import FunctionType
 from typing import Union
 
+import numpy as np
 from algebra.util import identical
 from lab import B
 from matrix import AbstractMatrix, Diagonal, Zero
@@ -332,6 +333,9 @@ class Normal(RandomVector):
 
         # Add noise.
         if noise is not None:
+            # A number should not change the precision of the samples.
+            if isinstance(noise, B.Number) and B.issubdtype(B.dtype(var), np.floating):
+                noise = B.cast(B.dtype(var), noise)
             var = B.add(var, B.fill_diag(noise, self.dim))
 
         # Perform sampling operation.
-- 
2.43.0


From 6d1edb7ca66853382856a91cbaf943da6bd52514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 16/22] fix: Do not infer the dimensionality of ambiguous
 posterior covariances

---
 stheno/model/observations.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index ebd9656..7ce21e6 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -5,6 +5,8 @@ from matrix import AbstractMatrix, Diagonal
 from mlkernels import PosteriorKernel, PosteriorMean, SubspaceKernel, num_elements
 
 from .. import _dispatch
+from ..mo import AmbiguousDimensionalityKernel as ADK
+from ..mo import dimensionality
 from .fdd import FDD
 from .gp import cross
 
@@ -47,6 +49,13 @@ def combine(*pairs: tuple):
     return combined_fdd, combined_y
 
 
+def _preserve_ambiguity(prior, posterior):
+    # The dimensionality of the covariance between processes with different numbers of
+    # outputs cannot be inferred. It should then not be inferred from the covariances
+    # with the observations either, because these involve yet another process.
+    return ADK(posterior) if dimensionality(prior) is None else posterior
+
+
 class AbstractObservations:
     """Abstract base class for observations.
 
@@ -145,13 +154,15 @@ class Observations(AbstractObservations):
             # There are no observations! Just return prior.
             return measure.kernels[p_i, p_j]
 
-        return PosteriorKernel(
-            measure.kernels[p_i, p_j],
+        prior = measure.kernels[p_i, p_j]
+        posterior = PosteriorKernel(
+            prior,
             measure.kernels[self.fdd.p, p_i],
             measure.kernels[self.fdd.p, p_j],
             self.fdd.x,
             self.K_x(measure),
         )
+        return _preserve_ambiguity(prior, posterior)
 
     def posterior_mean(self, measure, p):
         if num_elements(self.fdd.x) == 0:
@@ -253,8 +264,9 @@ class AbstractPseudoObservations(AbstractObservations):
             return self._A[id(measure)]
 
     def posterior_kernel(self, measure, p_i, p_j):
-        return PosteriorKernel(
-            measure.kernels[p_i, p_j],
+        prior = measure.kernels[p_i, p_j]
+        posterior = PosteriorKernel(
+            prior,
             measure.kernels[self.u.p, p_i],
             measure.kernels[self.u.p, p_j],
             self.u.x,
@@ -265,6 +277,7 @@ class AbstractPseudoObservations(AbstractObservations):
             self.u.x,
             self.A(measure),
         )
+        return _preserve_ambiguity(prior, posterior)
 
     def posterior_mean(self, measure, p):
         return PosteriorMean(
-- 
2.43.0


From 7a36ac9ac718387fb2ec43c25da45caade1ce19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 17/22] fix: Account for outputs in covariances with new
 independent processes

The covariance between a multi-output process and a process that was created after it
was `ZeroKernel`, which always has one output and does not support tagged inputs.
---
 stheno/mo/__init__.py   |  1 +
 stheno/mo/zero.py       | 64 +++++++++++++++++++++++++++++++++++++++++
 stheno/model/measure.py | 18 ++++++++++--
 3 files changed, 80 insertions(+), 3 deletions(-)
 create mode 100644 stheno/mo/zero.py

diff --git a/stheno/mo/__init__.py b/stheno/mo/__init__.py
index cf2b5c2..2752274 100644
--- a/stheno/mo/__init__.py
+++ b/stheno/mo/__init__.py
@@ -3,3 +3,4 @@ from .infer import *
 from .input import *
 from .kernel import *
 from .mean import *
+from .zero import *
diff --git a/stheno/mo/zero.py b/stheno/mo/zero.py
new file mode 100644
index 0000000..738a0df
--- /dev/null
+++ b/stheno/mo/zero.py
@@ -0,0 +1,64 @@
+from typing import Union
+
+from lab import B
+from matrix import Zero
+from mlkernels import Kernel, pairwise
+
+from .. import PromisedFDD as FDD
+from .. import _dispatch
+from .infer import infer_size
+
+__all__ = ["MultiOutputZeroKernel"]
+
+
+class MultiOutputZeroKernel(Kernel):
+    """Covariance between two independent processes, at least one of which has multiple
+    outputs. Unlike :class:`mlkernels.ZeroKernel`, it takes the outputs into account.
+
+    Args:
+        k_i (:class:`mlkernels.Kernel`): Kernel of the first process.
+        k_j (:class:`mlkernels.Kernel`): Kernel of the second process.
+
+    Attributes:
+        k_i (:class:`mlkernels.Kernel`): Kernel of the first process.
+        k_j (:class:`mlkernels.Kernel`): Kernel of the second process.
+    """
+
+    def __init__(self, k_i, k_j):
+        self.k_i = k_i
+        self.k_j = k_j
+
+    @property
+    def _stationary(self):
+        return True
+
+    def render(self, formatter):
+        return "0"
+
+
+@pairwise.dispatch
+def pairwise(k: MultiOutputZeroKernel, x: B.Numeric, y: B.Numeric):
+    return Zero(
+        B.dtype(x, y),
+        *B.shape_batch_broadcast(x, y),
+        infer_size(k.k_i, x),
+        infer_size(k.k_j, y),
+    )
+
+
+@pairwise.dispatch
+def pairwise(k: MultiOutputZeroKernel, x: FDD, y: Union[B.Numeric, FDD]):
+    return pairwise(MultiOutputZeroKernel(x.p.kernel, k.k_j), x.x, y)
+
+
+@pairwise.dispatch
+def pairwise(k: MultiOutputZeroKernel, x: B.Numeric, y: FDD):
+    return pairwise(MultiOutputZeroKernel(k.k_i, y.p.kernel), x, y.x)
+
+
+# The processes may have different numbers of outputs.
+
+
+@_dispatch
+def dimensionality(k: MultiOutputZeroKernel):
+    return None
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ec53de8..247d125 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,7 +10,8 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
-from ..mo import infer_size
+from ..mo import MultiOutputZeroKernel as MOZK
+from ..mo import dimensionality, infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -159,6 +160,13 @@ class Measure:
     def __call__(self, fdd: FDD):
         return self(fdd.p)(fdd.x, fdd.noise)
 
+    def _zero_kernel(self, i, j):
+        # The covariance between independent processes must account for their outputs.
+        k_i, k_j = self.kernels[i], self.kernels[j]
+        if dimensionality(k_i) == dimensionality(k_j) == 1:
+            return ZeroKernel()
+        return MOZK(k_i, k_j)
+
     def add_independent_gp(self, p, mean, kernel):
         """Add an independent GP to the model.
 
@@ -175,8 +183,12 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, lambda j: ZeroKernel())
-        self.kernels.add_right_rule(id(p), self._pids, lambda i: ZeroKernel())
+        self.kernels.add_left_rule(
+            id(p), self._pids, lambda j: self._zero_kernel(p, j)
+        )
+        self.kernels.add_right_rule(
+            id(p), self._pids, lambda i: self._zero_kernel(i, p)
+        )
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
-- 
2.43.0


From dd82c50bfc7cfcb9a39e3b5744770ddc40e0f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 18/22] fix: Support element-wise evaluation of sums of
 Cartesian products

The element-wise covariance between two Cartesian products raised an error, so marginals
of their sums were not available.
---
 stheno/mo/kernel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index ed4832d..9123cdb 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -63,12 +63,21 @@ def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: FDD, y: B.Numeric):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    n_x, n_y = infer_size(k.measure.kernels[x.p], x.x), infer_size(k, y)
+    return _elwise_different_processes(k, x, y, n_x, n_y)
 
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: FDD):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    n_x, n_y = infer_size(k, x), infer_size(k.measure.kernels[y.p], y.x)
+    return _elwise_different_processes(k, x, y, n_x, n_y)
+
+
+def _elwise_different_processes(k, x, y, n_x, n_y):
+    if n_x != n_y:
+        raise ValueError('Unclear combination of arguments given to "elwise".')
+    # The outputs do not necessarily line up, so the full matrix is necessary.
+    return B.expand_dims(B.diag(pairwise(k, x, y)), axis=-1)
 
 
 @elwise.dispatch
-- 
2.43.0


From c877108a273831fcfcbb5fb19415577b84e47221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 19/22] fix: Support structured variances of finite-dimensional
 distributions

---
 stheno/model/fdd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 014778d..6adce47 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -72,7 +72,9 @@ class FDD(Normal):
         self.noise = _noise_as_matrix(noise, B.dtype(x), infer_size(p.kernel, x))
 
         def var_diag():
-            return B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(self.noise))
+            # The kernel might give a structured matrix, which cannot be squeezed.
+            var_diag = B.squeeze(B.dense(p.kernel.elwise(x)), axis=-1)
+            return B.add(var_diag, B.diag(self.noise))
 
         def mean_var():
             mean, var = mlkernels.mean_var(p.mean, p.kernel, x)
@@ -80,7 +82,8 @@ class FDD(Normal):
 
         def mean_var_diag():
             mean, var_diag = mlkernels.mean_var_diag(p.mean, p.kernel, x)
-            return mean, B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
+            var_diag = B.squeeze(B.dense(var_diag), axis=-1)
+            return mean, B.add(var_diag, B.diag(self.noise))
 
         Normal.__init__(
             self,
-- 
2.43.0


From 533463bac612f061671f92094a37abc36ea0dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 20/22] fix: Format values in the text of multi-output
 processes

---
 stheno/mo/kernel.py | 2 +-
 stheno/mo/mean.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 9123cdb..92916e8 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -32,7 +32,7 @@ class MultiOutputKernel(Kernel):
         self.ps = ps
 
     def render(self, formatter):
-        ks = [str(self.measure.kernels[p]) for p in self.ps]
+        ks = [self.measure.kernels[p].display(formatter) for p in self.ps]
         return "MultiOutputKernel({})".format(", ".join(ks))
 
 
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 4372532..01ad5ee 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -38,7 +38,7 @@ class MultiOutputMean(Mean):
         return B.concat(*[self(xi) for xi in x], axis=-2)
 
     def render(self, formatter):
-        ms = [str(self.measure.means[p]) for p in self.ps]
+        ms = [self.measure.means[p].display(formatter) for p in self.ps]
         return "MultiOutputMean({})".format(", ".join(ms))
 
 
-- 
2.43.0


From 8883e5d25200e47247862801248353f3c9971a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 21/22] fix: Use floating-point constants in log-densities of
 integer variances

---
 stheno/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index f706e92..a67228d 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -257,10 +257,11 @@ class Normal(RandomVector):
                 available_x = B.take(x, available)
                 return Normal(available_mean, available_var).logpdf(available_x)
 
+        dtype = B.dtype_float(self.dtype)  # The variance may consist of integers.
         logpdfs = (
             -(
                 B.logdet(self.var)[..., None]  # Correctly line up with `iqf_diag`.
-                + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
+                + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi)
                 + B.iqf_diag(self.var, B.subtract(x, self.mean))
             )
             / 2
@@ -273,9 +274,10 @@ class Normal(RandomVector):
         Returns:
             scalar: The entropy.
         """
+        dtype = B.dtype_float(self.dtype)  # The variance may consist of integers.
         return (
             B.logdet(self.var)
-            + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi + 1)
+            + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi + 1)
         ) / 2
 
     @_dispatch
-- 
2.43.0


From ec2be105e738d5642624b7623811481fdfad5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 22/22] fix: Evaluate zero covariances at inputs of products of
 one process

---
 stheno/mo/zero.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/stheno/mo/zero.py b/stheno/mo/zero.py
index 738a0df..dfd207d 100644
--- a/stheno/mo/zero.py
+++ b/stheno/mo/zero.py
@@ -2,7 +2,7 @@ from typing import Union
 
 from lab import B
 from matrix import Zero
-from mlkernels import Kernel, pairwise
+from mlkernels import Kernel, ZeroKernel, pairwise
 
 from .. import PromisedFDD as FDD
 from .. import _dispatch
@@ -56,6 +56,19 @@ def pairwise(k: MultiOutputZeroKernel, x: B.Numeric, y: FDD):
     return pairwise(MultiOutputZeroKernel(k.k_i, y.p.kernel), x, y.x)
 
 
+# A multi-output process may have just one output.
+
+
+@pairwise.dispatch
+def pairwise(k: ZeroKernel, x: FDD, y: Union[B.Numeric, FDD]):
+    return pairwise(k, x.x, y)
+
+
+@pairwise.dispatch
+def pairwise(k: ZeroKernel, x: B.Numeric, y: FDD):
+    return pairwise(k, x, y.x)
+
+
 # The processes may have different numbers of outputs.
 
 
-- 
2.43.0

