From 8e67c182d8e1cab4d553a15408cf6fbfbd958878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 01/99] fix: chain rule for the shape weights under a rotated
 global transform

The Jacobian of a GlobalPDM (and of the transforms driven by one) with
respect to its shape weights summed the columns of the linear part of the
global transform instead of multiplying by it, which is only right when the
global transform does not rotate.
---
 menpofit/modelinstance.py         | 2 +-
 menpofit/transform/modeldriven.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..d2096c4 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -573,7 +573,7 @@ class GlobalPDM(PDM):
         # (n_points, n_dims, n_dims)
         dX_dS = self.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dX_db = np.einsum('ilj, idj -> idj', dX_dS, dS_db)
+        dX_db = np.einsum('ilj, idj -> idl', dX_dS, dS_db)
 
         # dX/dp is simply the concatenation of the previous two terms
         # (n_points, n_params, n_dims)
diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d770290..8615fc5 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -381,7 +381,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -449,7 +449,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
-- 
2.43.0


From a4fa16ac805d96280470e5dba1adf97393a66879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 02/99] fix: product of dW/dx and dW/dp in the composition of
 model driven transforms

The subscripts of the einsum were not valid for ModelDrivenTransform, so that
composing one always raised, and took only the column sums of dW/dx for
GlobalMDTransform.
---
 menpofit/transform/modeldriven.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 8615fc5..2f03508 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -164,7 +164,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -286,7 +286,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -393,7 +393,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -461,7 +461,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
-- 
2.43.0


From 681472964f6381e660b92b3de855d77a83cb251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 03/99] fix: copy the points that key the cached Jacobian of a
 model driven transform

The cache kept a reference to the caller's array, so moving the points in
place returned the Jacobian of the old points.
---
 menpofit/transform/modeldriven.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 2f03508..456b83b 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -230,7 +230,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
             # the source landmarks
             self.dW_dl = self.transform.d_dl(points)
             # cache points
-            self._cached_points = points
+            self._cached_points = np.array(points)
 
         # dX/dp is simply the Jacobian of the PDM
         dX_dp = self.pdm.d_dp(points)
-- 
2.43.0


From 6e651ae273c12ceea7ae497595f8640c55884272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 04/99] fix: spatial derivative of thin plate splines

The kernel derivative was indexed with the points in the place of the
centres: it had the wrong sign for a warp that is not affine, was transposed,
and raised unless as many points as centres were given.
---
 menpofit/transform/thinsplatesplines.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index be6098a..b26b2d6 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -161,14 +161,14 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             in this case axis zero may have length ``1`` to allow for
             broadcasting.
         """
-        dk_dx = np.zeros((points.shape[0] + 3,   # i
-                          self.source.n_points,  # k
-                          self.source.n_dims))   # l
-        dk_dx[:-3, :] = self.kernel.d_dl(points)
+        dk_dx = np.zeros((points.shape[0],           # i
+                          self.source.n_points + 3,  # l
+                          self.source.n_dims))       # k
+        dk_dx[:, :-3] = self.kernel.d_dl(points)
 
         affine_derivative = np.array([[0, 0],
                                       [1, 0],
                                       [0, 1]])
-        dk_dx[-3:, :] = affine_derivative[:, None]
+        dk_dx[:, -3:] = affine_derivative[None]
 
-        return np.einsum('ij, ikl -> klj', self.coefficients, dk_dx)
+        return np.einsum('lj, ilk -> ijk', self.coefficients, dk_dx)
-- 
2.43.0


From 7f1f6c8d3183d6510f06681e94d9a50ca43e080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 05/99] fix: model driven transforms without a source use the
 mean of the model

source=None was handed to the alignment transform, which raised.
---
 menpofit/transform/modeldriven.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 456b83b..95adc2a 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -40,6 +40,9 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         # Assign attributes
         self.pdm = model
         self._cached_points, self.dW_dl = None, None
+        if source is None:
+            # the mean of the model is the default source
+            source = self.pdm.model.mean()
         self.transform = transform_cls(source, self.target)
 
     @property
-- 
2.43.0


From 18f52ff4acaeb515e11bda7a337f9bd7095cf1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 06/99] fix: affine transform of a scale that shares the
 features of the previous scale

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..b3f6546 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -373,8 +373,8 @@ class MultiScaleNonParametricFitter(object):
                     initial_shape))
             else:
                 # If features are not extracted, then the affine transform
-                # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                # should be identical with the one of the previous level.
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
-- 
2.43.0


From 3411b7015c98bba0dde7011c3503196b12d30508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 07/99] fix: order of the transforms between scales with
 different features

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index b3f6546..7e43ccb 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -484,14 +484,14 @@ class MultiScaleNonParametricFitter(object):
                     # transform is different as well. Thus we need to do the
                     # following composition:
                     #
-                    #    S_{i+1} \circ A_{i+1} \circ inv(A_i) \circ inv(S_i)
+                    #    inv(S_{i+1}) \circ inv(A_{i+1}) \circ A_i \circ S_i
                     #
                     # where:
                     #    S_i : scaling transform of current scale
                     #    S_{i+1} : scaling transform of next scale
                     #    A_i : affine transform of current scale
                     #    A_{i+1} : affine transform of next scale
-                    t1 = scale_transforms[i].compose_after(affine_transforms[i])
+                    t1 = affine_transforms[i].compose_after(scale_transforms[i])
                     t2 = affine_transforms[i + 1].pseudoinverse().compose_after(t1)
                     transform = scale_transforms[i + 1].pseudoinverse().compose_after(t2)
                     shape = transform.apply(shape)
-- 
2.43.0


From f9bba7ec3600a52bd6330638bbdb4a4b7a91ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 08/99] fix: compare the noise type by value

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 7e43ccb..7ec004f 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From 4b676dbe49f99e0380939a4c61eeb82e3bf7f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 09/99] fix: uniform scale noise is drawn from a uniform
 distribution

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 7ec004f..4c5ab74 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type == 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From cc2cd3a4298114e0b50c3a4f156ef154d832ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 10/99] fix: leave the caller's noise percentages as they were

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 4c5ab74..4869de9 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -65,7 +65,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     if isinstance(noise_percentage, float):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From 66988c75a68cf877cb3b86b8956e6fd4714ea270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 11/99] fix: multi-scale parameters given as a list on current
 Python versions

---
 menpofit/checks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..c8c52f7 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,5 +1,8 @@
 import warnings
-import collections
+try:
+    from collections.abc import Iterable
+except ImportError:  # Python 2
+    from collections import Iterable
 from functools import partial
 import numpy as np
 
@@ -151,7 +154,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From 97bc575a41a5377cd8f5a80d937cada5cdbae5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 12/99] fix: a list with one patch shape applies to every scale

---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index c8c52f7..f6cb010 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -229,7 +229,7 @@ def check_patch_shape(patch_shape, n_scales):
     if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
         return [patch_shape] * n_scales
     elif len(patch_shape) == 1:
-        return check_patch_shape(patch_shape[0], 1)
+        return check_patch_shape(patch_shape[0], n_scales)
     elif len(patch_shape) == n_scales:
         l1 = check_patch_shape(patch_shape[0], 1)
         l2 = check_patch_shape(patch_shape[1:], n_scales-1)
-- 
2.43.0


From e6b9c2641b086b4cf657704daf8f996d2d4f3892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 13/99] fix: accept a list of sampling masks in which some are
 None

---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index f6cb010..a7eceb9 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -347,7 +347,7 @@ def check_sampling(sampling, n_scales):
         containing 1 or {n_scales} elements or None
     """
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or sampling is None
+        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
             return sampling * n_scales
-- 
2.43.0


From 4f842f479abdd7b4fc694c1d0a1c777e61a8eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 14/99] fix: number of iterations of a Lucas-Kanade fitting
 result

---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From bb58971647af051f7db2b45826630d6bca1694cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 15/99] fix: parametric cascaded regression results include the
 reconstructed initial shape

---
 menpofit/sdm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..12104b3 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,7 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From 39ac5f15846f3e9e752083ca29261a3f09314d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 16/99] fix: results of fits whose budget allows no iterations

---
 menpofit/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 300f134..fb66b85 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -679,7 +679,7 @@ class NonParametricIterativeResult(Result):
         self, shapes, initial_shape=None, image=None, gt_shape=None, costs=None
     ):
         super(NonParametricIterativeResult, self).__init__(
-            final_shape=shapes[-1],
+            final_shape=shapes[-1] if len(shapes) > 0 else initial_shape,
             image=image,
             initial_shape=initial_shape,
             gt_shape=gt_shape,
-- 
2.43.0


From 7df8bba68c7ba0aad44e2b3e2da5e548a492e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 17/99] fix: target of an alignment similarity after a
 composition

---
 menpofit/transform/homogeneous.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/menpofit/transform/homogeneous.py b/menpofit/transform/homogeneous.py
index 9396202..240eee9 100644
--- a/menpofit/transform/homogeneous.py
+++ b/menpofit/transform/homogeneous.py
@@ -185,6 +185,19 @@ class DifferentiableAlignmentSimilarity(AlignmentSimilarity, DP, DX):
         """
         return DifferentiableSimilarity(self.h_matrix, skip_checks=True)
 
+    def compose_after_from_vector_inplace(self, vector):
+        r"""
+        Composes the transform encoded by the vector before self, in place. The
+        target of the alignment follows the new state of the transform.
+
+        Parameters
+        ----------
+        vector : ``(n_parameters,)`` `ndarray`
+            Vector to update the transform state with.
+        """
+        AlignmentSimilarity.compose_after_from_vector_inplace(self, vector)
+        self._sync_target_from_state()
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
-- 
2.43.0


From 4cbe4b560d7f70f2be1885f945f60488e3b9b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 18/99] fix: image normalisation of the ECC residual

---
 menpofit/lk/residual.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..44203fb 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -4,7 +4,7 @@ import numpy as np
 from numpy.fft import fftn, ifftn, fft2
 import scipy.linalg
 
-from menpo.feature import gradient
+from menpo.feature import gradient, normalize_norm
 
 
 # TODO: Do we want residuals to support masked templates?
@@ -485,11 +485,8 @@ class ECC(Residual):
         on Pattern Analysis and Machine Intelligence, 30(10): 1858-1865, 2008.
     """
     def _normalise_images(self, image):
-        # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return normalize_norm(image)
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From 6224b99aeee8b46ffebea5eaca24174047d9f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 19/99] fix: gradient images residual compares against the
 gradient of the template

---
 menpofit/lk/residual.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 44203fb..2d5c463 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -703,11 +703,11 @@ class GradientImages(Residual):
 
         # compute gradient
         first_grad = self.gradient(image, forward=forward)
-        self._template_grad = self._regularise_gradients(first_grad)
+        first_grad = self._regularise_gradients(first_grad)
 
         # compute gradient
         # second_grad:  dims x dims x ch x pixels
-        second_grad = self.gradient(self._template_grad)
+        second_grad = self.gradient(first_grad)
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
@@ -789,10 +789,13 @@ class GradientImages(Residual):
         IWxp_grad = self.gradient(image)
         IWxp_grad = self._regularise_gradients(IWxp_grad)
 
+        # compute template regularized gradient
+        template_grad = self.gradient(template)
+        template_grad = self._regularise_gradients(template_grad)
+
         # compute vectorized error_image
         # error_img: (dims x ch x pixels)
-        self._error_img = (IWxp_grad.as_vector() -
-                           self._template_grad.as_vector())
+        self._error_img = IWxp_grad.as_vector() - template_grad.as_vector()
 
         # compute steepest descent update
         # sdi.T:      params x (dims x ch x pixels)
-- 
2.43.0


From fe14ae261f7081e27e4192b93120a6f051321e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 20/99] fix: gradient correlation residual compares against the
 gradient of the template

---
 menpofit/lk/residual.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 2d5c463..6646311 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -875,8 +875,8 @@ class GradientCorrelation(Residual):
         # cos_phi:        ch x pixels
         # sin_phi:        ch x pixels
         phi = np.angle(grad2[1, ...] + 1j * grad2[0, ...])
-        self._cos_phi = np.cos(phi)
-        self._sin_phi = np.sin(phi)
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
 
         # concatenate sin and cos terms so that we can take the second
         # derivatives correctly. sin(phi) = y and cos(phi) = x which is the
@@ -885,8 +885,8 @@ class GradientCorrelation(Residual):
         # sin_phi:         ch  x pixels
         # grad:    (dims x ch) x pixels
         grad.from_vector_inplace(
-            np.concatenate((self._sin_phi[None, ...],
-                            self._cos_phi[None, ...]), axis=0).ravel())
+            np.concatenate((sin_phi[None, ...],
+                            cos_phi[None, ...]), axis=0).ravel())
 
         # compute IGOs gradient
         # second_grad:  dims x dims x ch x pixels
@@ -899,8 +899,8 @@ class GradientCorrelation(Residual):
 
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-self._sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (self._cos_phi[None, ...] * second_grad[0, ...])
+        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
+        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
@@ -994,10 +994,20 @@ class GradientCorrelation(Residual):
         IWxp_cos_phi = np.cos(phi)
         IWxp_sin_phi = np.sin(phi)
 
+        # compute template IGOs
+        # template_cos_phi:     ch x pixels
+        # template_sin_phi:     ch x pixels
+        template_grad = self.gradient(template)
+        template_grad = template_grad.as_vector().reshape(
+            (n_dims, n_channels) + template.shape)
+        phi = np.angle(template_grad[1, ...] + 1j * template_grad[0, ...])
+        template_cos_phi = np.cos(phi)
+        template_sin_phi = np.sin(phi)
+
         # compute error image
         # error_img:  (ch x h x w)
-        self._error_img = (self._cos_phi * IWxp_sin_phi -
-                           self._sin_phi * IWxp_cos_phi).ravel()
+        self._error_img = (template_cos_phi * IWxp_sin_phi -
+                           template_sin_phi * IWxp_cos_phi).ravel()
 
         # compute steepest descent update
         # sdi:       (ch x pixels) x params
@@ -1006,8 +1016,8 @@ class GradientCorrelation(Residual):
         sdu = sdi.T.dot(self._error_img)
 
         # compute step size
-        qp = np.sum(self._cos_phi * IWxp_cos_phi +
-                    self._sin_phi * IWxp_sin_phi)
+        qp = np.sum(template_cos_phi * IWxp_cos_phi +
+                    template_sin_phi * IWxp_sin_phi)
         self._l = self._N / qp
         return self._l * sdu
 
-- 
2.43.0


From 39b2e86bed392653dc054d329aa1c88c266b584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 21/99] fix: scale of the image gradient in the forward
 additive ECC residual

---
 menpofit/lk/residual.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 6646311..640a154 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -520,7 +520,17 @@ class ECC(Residual):
             The steepest descent images
         """
         # normalize image
-        norm_image = self._normalise_images(image)
+        if forward:
+            # The norm is the one of the image region under the template, as
+            # this is the image that is compared with the template
+            template, transform = forward
+            IWxp = image.warp_to_mask(template.mask, transform,
+                                      warp_landmarks=False).as_vector()
+            norm_image = image.copy()
+            norm_image.pixels = (image.pixels /
+                                 scipy.linalg.norm(IWxp - np.mean(IWxp)))
+        else:
+            norm_image = self._normalise_images(image)
 
         # compute gradient
         # gradient:  dims x ch x pixels
-- 
2.43.0


From a7fb121a45b85f36971c5500551e18124444af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 22/99] fix: cost of the filtered SSD residuals

---
 menpofit/lk/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 640a154..8ac171e 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -296,8 +296,8 @@ class SSD(Residual):
                 return x.T.dot(x)
             else:
                 x = x.reshape((-1,) + k.shape[-2:])
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = np.real(ifftn(k * fftn(x, axes=(-2, -1)),
+                                   axes=(-2, -1)))
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
@@ -465,8 +465,8 @@ class FourierSSD(Residual):
             if k is None:
                 return x.ravel().T.dot(x.ravel())
             else:
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = np.real(ifftn(k * fftn(x, axes=(-2, -1)),
+                                   axes=(-2, -1)))
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
-- 
2.43.0


From c9fd4be655630ada8beae11c38d1df5699b187a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 23/99] fix: compare the convolution mode by value

---
 menpofit/math/fft_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..394a3b9 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -152,11 +152,11 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
@@ -234,11 +234,11 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
-- 
2.43.0


From 266974f3e3515fa25e7878fcced9eab87333ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 24/99] fix: crop by less than two pixels

---
 menpofit/math/fft_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 394a3b9..ba59a0d 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -67,8 +67,8 @@ def crop(pixels, shape):
     w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
 
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_margin + h_corrector:h - h_margin,
+                  w_margin + w_corrector:w - w_margin]
 
 
 # TODO: Document me!
-- 
2.43.0


From db41c738551315e6ceb3d064198dac5d059a9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 25/99] fix: conversion of dlib detections to pointclouds

---
 menpofit/dlib/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..95fddca 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -4,7 +4,7 @@ import numpy as np
 from menpo.shape import PointCloud, bounding_box
 
 
-all_parts = lambda det: ((p.y, p.x) for p in det.parts())
+all_parts = lambda det: [(p.y, p.x) for p in det.parts()]
 
 
 def pointcloud_to_dlib_parts(pcloud):
-- 
2.43.0


From ce50c58323ae8514a4a1a4706de687c6bad0e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 26/99] fix: shape models keep their own copy of the weights
 they are given

---
 menpofit/modelinstance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index d2096c4..d636546 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -176,7 +176,7 @@ class ModelInstance(Targetable, Vectorizable, DP):
         Updates this `menpofit.modelinstance.ModelInstance` from it's
         vectorized form (in this case, simply the weights on the linear model)
         """
-        self._weights = vector
+        self._weights = np.array(vector)
         self._sync_target_from_state()
 
 
@@ -640,7 +640,7 @@ class OrthoPDM(GlobalPDM):
         self._update_global_weights(self.similarity_weights)
 
     def _update_global_weights(self, global_weights):
-        self.similarity_weights = global_weights
+        self.similarity_weights = np.array(global_weights)
         new_target = self.similarity_model.instance(global_weights)
         self.global_transform.set_target(new_target)
 
-- 
2.43.0


From e61606d49d6f505411749e08142e2cfc20db98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 27/99] fix: global transform of an incremented shape model
 aligns its new mean

---
 menpofit/modelinstance.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index d636546..6485b0b 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -404,9 +404,14 @@ class PDM(ModelInstance):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        self._reset_global_transform()
         # Reset the target given the new model
         self.set_target(old_target)
 
+    def _reset_global_transform(self):
+        # A plain PDM has no global transform
+        pass
+
     def __str__(self):
         str_out = 'Point Distribution Model \n' \
                   ' - centred:              {}\n' \
@@ -451,6 +456,12 @@ class GlobalPDM(PDM):
         mean = self.model.mean()
         self.global_transform = global_transform_cls(mean, mean)
 
+    def _reset_global_transform(self):
+        # The global transform aligns the mean of the model, which changes
+        # whenever the model is incremented
+        mean = self.model.mean()
+        self.global_transform = type(self.global_transform)(mean, mean)
+
     @property
     def n_global_parameters(self):
         r"""
@@ -687,6 +698,7 @@ class OrthoPDM(GlobalPDM):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        self._reset_global_transform()
         # Re-orthonormalize
         self._construct_similarity_model()
         # Reset the target given the new models
-- 
2.43.0


From 5664c2aa3e365c6815df6169f3872cbef595652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 28/99] fix: frequency domain convolution extends the image by
 the whole filter

---
 menpofit/math/fft_utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index ba59a0d..ea585f3 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -121,9 +121,11 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         Result of convolving each image channel with its corresponding
         filter channel.
     """
+    x_shape = np.asarray(x.shape[-2:])
     if fft_filter:
         # extended shape is filter shape
         ext_shape = np.asarray(f.shape[-2:])
+        f_shape = ext_shape - x_shape + 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -133,10 +135,8 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         fft_ext_f = f
     else:
         # extended shape
-        x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -157,7 +157,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     elif mode == 'same':
         return crop(ext_c, x_shape)
     elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
+        return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
             "mode={}, is not supported. The only supported "
@@ -199,14 +199,13 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         Result of convolving each image channel with its corresponding
         filter channel and summing across the channel axis.
     """
+    x_shape = np.asarray(x.shape[-2:])
     if fft_filter:
         fft_ext_f = f
 
         # extended shape is fft_ext_filter shape
-        x_shape = np.asarray(x.shape[-2:])
-        f_shape = ((np.asarray(fft_ext_f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
+        f_shape = ext_shape - x_shape + 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -215,10 +214,8 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         fft_ext_x = fft2(ext_x)
     else:
         # extended shape
-        x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -239,7 +236,7 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     elif mode == 'same':
         return crop(ext_c, x_shape)
     elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
+        return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
             "mode={}, is not supported. The only supported "
-- 
2.43.0


From bf49688dcdb12164b0cf11abd18a4c2c2412e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 29/99] fix: incremental correlation filters weight all samples
 equally

---
 menpofit/math/correlationfilter.py | 32 ++++++++----------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..b4f3f1f 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -148,15 +148,6 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -182,9 +173,10 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         sXX += fft_ext_x.conj() * fft_ext_x
         sXY += fft_ext_x.conj() * fft_ext_y
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices, which are
+    # sums over samples; the old ones are weighted by the forgetting factor
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # compute desired correlation filter
     fft_ext_f = sXY / (sXX + l)
     # reshape extended filter to extended image shape
@@ -354,15 +346,6 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -396,9 +379,10 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         sXX += diag_fft_x.conj().T.dot(diag_fft_x)
         sXY += diag_fft_x.conj().T.dot(diag_fft_y)
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices, which are
+    # sums over samples; the old ones are weighted by the forgetting factor
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # solve ext_d independent k x k linear systems (with regularization)
     # to obtain desired extended multi-channel correlation filter
     fft_ext_f = spsolve(sXX + l * speye(sXX.shape[-1]), sXY)
-- 
2.43.0


From 4d8c6c9b536a839797776e53d3197a15df0b14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 30/99] fix: incremental regularised linear regression

---
 menpofit/math/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..2c7d2c7 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -74,8 +74,7 @@ class IRLRegression(object):
 
         # incremental regularized linear regression
         U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        np.fill_diagonal(U, 1 + np.diag(U))
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From 05cd78d9b07d5d58ceb37eefd72b8926977ea0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 31/99] fix: incremental indirect regularised linear regression

---
 menpofit/math/regression.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 2c7d2c7..7152afd 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -115,11 +115,16 @@ class IIRLRegression(IRLRegression):
         If ``True``, a bias term is used.
     alpha2 : `float`, optional
         The regularization parameter of the Hessian.
+    incrementable : `bool`, optional
+        If ``True``, then the regression model will have the ability to get
+        incremented.
     """
-    def __init__(self, alpha=0, bias=False, alpha2=0):
+    def __init__(self, alpha=0, bias=False, alpha2=0, incrementable=False):
         # TODO: Can we model the bias? May need to slice off of prediction?
-        super(IIRLRegression, self).__init__(alpha=alpha, bias=False)
+        super(IIRLRegression, self).__init__(alpha=alpha, bias=False,
+                                             incrementable=incrementable)
         self.alpha2 = alpha2
+        self.J = None
 
     def train(self, X, Y):
         r"""
@@ -134,7 +139,7 @@ class IIRLRegression(IRLRegression):
         """
         # regularized linear regression exchanging the roles of X and Y
         super(IIRLRegression, self).train(Y, X)
-        J = self.W
+        J = self.J = self.W
         # solve the original problem by computing the pseudo-inverse of the
         # previous solution
         # Note that everything is transposed from the above exchanging of roles
@@ -159,16 +164,19 @@ class IIRLRegression(IRLRegression):
         ValueError
             Model is not incrementable
         """
-        # incremental least squares exchanging the roles of X and Y
+        # incremental least squares exchanging the roles of X and Y, from the
+        # previous solution of the exchanged problem
+        if self.incrementable:
+            self.W = self.J
         super(IIRLRegression, self).increment(Y, X)
-        J = self.W
+        J = self.J = self.W
         # solve the original problem by computing the pseudo-inverse of the
         # previous solution
         # Note that everything is transposed from the above exchanging of roles
         H = J.dot(J.T)
         if self.alpha2:
             np.fill_diagonal(H, self.alpha2 + np.diag(H))
-        self.W = np.linalg.solve(H, J)
+        self.W = np.linalg.solve(H, J).T
 
     def predict(self, x):
         r"""
-- 
2.43.0


From 2c6e0570890f4e25b81d1a753c64dfacaedc6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 32/99] fix: number of components retained by principal
 component and optimal regressions

---
 menpofit/math/regression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 7152afd..4bd3696 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -231,8 +231,8 @@ class PCRRegression(object):
         U, s, self.V = np.linalg.svd(X, full_matrices=False)
         if self.variance:
             variation = np.cumsum(s) / np.sum(s)
-            # Inverted for easier parameter semantics
-            k = np.sum(variation < self.variance)
+            # Smallest number of components that reaches the variance
+            k = np.sum(variation < self.variance) + 1
             U = U[:, :k]
             self.V = self.V[:k, :]
             s = s[:k]
@@ -318,8 +318,8 @@ class OptimalLinearRegression(object):
         k = U.shape[0]
         if self.variance is not None:
             variation = np.cumsum(l) / np.sum(l)
-            # Inverted for easier parameter semantics
-            k = np.sum(variation < self.variance)
+            # Smallest number of components that reaches the variance
+            k = np.sum(variation < self.variance) + 1
             U = U[:k, :]
 
         # Whitened components
-- 
2.43.0


From c9a08da4ba82aee9a5d6bcf4458c1e863838179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 33/99] fix: optimal linear regression keeps every direction
 that correlates with the output

---
 menpofit/math/regression.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 4bd3696..b3dbf9a 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from menpo.math import pca
+from menpo.math import eigenvalue_decomposition, pca
 
 
 class IRLRegression(object):
@@ -329,8 +329,9 @@ class OptimalLinearRegression(object):
         A = X.T.dot(Y).dot(Y.T).dot(X)
         A_tilde = U.dot(A).dot(U.T)
 
-        V, l2, _ = pca(A_tilde, centre=False)
-        H = V.dot(U)
+        # Directions of the whitened X that correlate with Y
+        V, _ = eigenvalue_decomposition((A_tilde + A_tilde.T) / 2.0)
+        H = V.T.dot(U)
 
         self.R = H.T.dot(np.linalg.pinv(X.dot(H.T)).dot(Y))
 
-- 
2.43.0


From 8b746d5831f7f4646050e4c17b8f3f53c90e807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 34/99] fix: centre of padded, cropped and correlation filtered
 images of any parity

---
 menpofit/math/correlationfilter.py | 10 +++++-----
 menpofit/math/fft_utils.py         | 26 ++++++++++----------------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index b4f3f1f..3aec07b 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -1,5 +1,5 @@
 import numpy as np
-from numpy.fft import fft2, ifft2, ifftshift
+from numpy.fft import fft2, ifft2, fftshift
 from scipy.sparse import spdiags, eye as speye
 from scipy.sparse.linalg import spsolve
 
@@ -81,7 +81,7 @@ def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute extended filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -183,7 +183,7 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -276,7 +276,7 @@ def mccf(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -390,7 +390,7 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
     if crop_filter:
         # crop extended filter to match desired response shape
         f = crop(f, y_shape)
diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index ea585f3..ae2338a 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -34,16 +34,12 @@ def pad(pixels, ext_shape, boundary='constant'):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (ext_shape[0] - h) // 2
-    w_margin = (ext_shape[1] - w) // 2
+    # the central pixel (size // 2) of the image becomes that of the result
+    h_margin = ext_shape[0] // 2 - h // 2
+    w_margin = ext_shape[1] // 2 - w // 2
 
-    h_margin2 = h_margin
-    if h + 2 * h_margin < ext_shape[0]:
-        h_margin += 1
-
-    w_margin2 = w_margin
-    if w + 2 * w_margin < ext_shape[1]:
-        w_margin += 1
+    h_margin2 = ext_shape[0] - h - h_margin
+    w_margin2 = ext_shape[1] - w - w_margin
 
     pad_width = []
     for _ in pixels.shape[:-2]:
@@ -60,15 +56,13 @@ def crop(pixels, shape):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (h - shape[0]) // 2
-    w_margin = (w - shape[1]) // 2
-
-    h_corrector = 1 if np.remainder(h - shape[0], 2) != 0 else 0
-    w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
+    # the central pixel (size // 2) of the image becomes that of the result
+    h_margin = h // 2 - shape[0] // 2
+    w_margin = w // 2 - shape[1] // 2
 
     return pixels[...,
-                  h_margin + h_corrector:h - h_margin,
-                  w_margin + w_corrector:w - w_margin]
+                  h_margin:h_margin + shape[0],
+                  w_margin:w_margin + shape[1]]
 
 
 # TODO: Document me!
-- 
2.43.0


From 563bf20e36308b0cfe12854b940c3eb0037c6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 35/99] fix: convolution of an array with a filter given as an
 image

---
 menpofit/math/fft_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index ae2338a..7f8caaa 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -81,7 +81,7 @@ def ndconvolution(wrapped):
             return rebuild_feature_image(image, feature)
         elif not isinstance(filter, np.ndarray):
             # filter is menpo image
-            return wrapped(image, filter, *args, **kwargs)
+            return wrapped(image, filter.pixels, *args, **kwargs)
         else:
             return wrapped(image, filter, *args, **kwargs)
     return wrapper
-- 
2.43.0


From 38bf4531180b337db29ad971d0c55165087562c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 36/99] fix: full and valid convolutions of even sized images
 and filters

---
 menpofit/math/fft_utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 7f8caaa..a16e88c 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -65,6 +65,17 @@ def crop(pixels, shape):
                   w_margin:w_margin + shape[1]]
 
 
+def align_full(ext_c, x_shape, f_shape):
+    r"""
+    Moves the first pixel of a full convolution to the first pixel of the
+    array. It only is elsewhere along the axes in which both the image and the
+    filter have an even size, because there the convolution of their central
+    pixels is not the central pixel of the extended shape.
+    """
+    both_even = (x_shape % 2 == 0) & (f_shape % 2 == 0)
+    return np.roll(ext_c, both_even.astype(int), axis=(-2, -1))
+
+
 # TODO: Document me!
 def ndconvolution(wrapped):
     r"""
@@ -147,10 +158,11 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
     if mode == 'full':
-        return ext_c
+        return align_full(ext_c, x_shape, f_shape)
     elif mode == 'same':
         return crop(ext_c, x_shape)
     elif mode == 'valid':
+        ext_c = align_full(ext_c, x_shape, f_shape)
         return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
@@ -226,10 +238,11 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
     if mode == 'full':
-        return ext_c
+        return align_full(ext_c, x_shape, f_shape)
     elif mode == 'same':
         return crop(ext_c, x_shape)
     elif mode == 'valid':
+        ext_c = align_full(ext_c, x_shape, f_shape)
         return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
-- 
2.43.0


From bd33b67b685eaa6b7189ceb770a9a68012cc62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 37/99] fix: centre of the search grid of the active shape
 model algorithm

---
 menpofit/clm/algorithm/gd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 3db9cac..46c7559 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -95,8 +95,8 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
         super(ActiveShapeModel, self)._precompute()
 
         # Build grid associated to size of the search space
-        self.half_search_shape = np.round(
-            np.asarray(self.expert_ensemble.search_shape) / 2).astype(np.int64)
+        self.half_search_shape = np.asarray(
+            self.expert_ensemble.search_shape) // 2
         self.search_grid = self.search_grid[None, None]
 
         # Compute Gaussian-KDE grid
-- 
2.43.0


From 19319077e49a00c7002df865ef634a80c4793598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 38/99] fix: probability maps of constant responses

---
 menpofit/clm/expert/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..ecee0e1 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -22,17 +22,15 @@ def probability_map(x, axes=(-2, -1)):
     probability_map : `menpo.image.Image` or ``(C, X, Y, ..., Z)`` `ndarray`
         The probability MAP of the image.
     """
-    x -= np.min(x, axis=axes, keepdims=True)
+    x = x - np.min(x, axis=axes, keepdims=True)
     total = np.sum(x, axis=axes, keepdims=True)
-    nonzero = total > 0
-    if np.any(~nonzero):
+    zero = total <= 0
+    if np.any(zero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
-    else:
-        x /= total
-    return x
+        x = np.where(zero, 1, x)
+        total = np.where(zero, x.size / total.size, total)
+    return x / total
 
 
 class IncrementalCorrelationFilterThinWrapper(object):
-- 
2.43.0


From 6353c26619388ac62c68ed70c46e9477ba025fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 39/99] fix: number of sample offsets of convolutional experts

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..4ce7f90 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -110,7 +110,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: `int`
         """
-        if self.sample_offsets:
+        if self.sample_offsets is not None:
             return self.sample_offsets.shape[0]
         else:
             return 1
-- 
2.43.0


From c2be5de7ffd444ec34d583411eee013026f2046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 40/99] fix: normalise the patches of each expert as in
 training

---
 menpofit/clm/expert/ensemble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 4ce7f90..edba8a4 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -208,8 +208,8 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         # Reshape patches
         # patches: n_patches x (n_offsets x n_channels) x height x width
         patches = patches.reshape((patches.shape[0], -1) + patches.shape[-2:])
-        # Normalise patches
-        return self.patch_normalisation(patches)
+        # Normalise patches, one at a time as it is done when training
+        return np.asarray([self.patch_normalisation(p) for p in patches])
 
     def predict_response(self, image, shape):
         r"""
-- 
2.43.0


From 5473c76891376a95d4bb17713d13a259d40045f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 41/99] fix: label the iterations of parametric results by
 their number in view_iterations

---
 menpofit/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index fb66b85..3267e83 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2272,7 +2272,7 @@ class ParametricIterativeResult(NonParametricIterativeResult):
         subplots_titles = {}
         iters_offset = 0
         if self.initial_shape is not None:
-            iters_offset = 1
+            iters_offset = -1
         for j in iters:
             if j == 0 and self.initial_shape is not None:
                 name = "Initial"
@@ -2927,7 +2927,7 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
         n_digits = len(str(self.n_iters))
         groups = []
         subplots_titles = {}
-        iters_offset = -2
+        iters_offset = 0
         if self.initial_shape is not None:
             iters_offset = -1
         for j in iters:
-- 
2.43.0


From 6927def65fbf6fe1b02713a485f6cffaf8f4ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 42/99] fix: view_iterations shows the reconstruction of every
 scale

---
 menpofit/result.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/menpofit/result.py b/menpofit/result.py
index 3267e83..cab04a5 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2936,6 +2936,11 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
                 image.landmarks[name] = self.initial_shape
             elif j in self._reconstruction_indices:
                 name = "Reconstruction"
+                if self.n_scales > 1:
+                    # Every scale starts with its own reconstruction
+                    name = "Reconstruction {}".format(
+                        self._reconstruction_indices.index(j)
+                    )
                 image.landmarks[name] = self.shapes[j]
             elif j == len(self.shapes) - 1:
                 name = "Final"
-- 
2.43.0


From 861bccba064fac103e2962a89371d729629969d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 43/99] fix: train every scale of a cascade from all the
 estimates of the previous one

---
 menpofit/dlib/fitter.py | 10 ++++++----
 menpofit/sdm/fitter.py  | 10 ++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..0e4ba7b 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -344,10 +344,12 @@ class DlibERT(MultiScaleNonParametricFitter):
                     print_progress, prefix=msg, end_with_newline=False, verbose=verbose
                 )
                 for ii in wrap(scaled_images):
-                    c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
-                        c_key = "__ert_current_bbox_{}".format(k)
-                        c_bboxes.append(ii.landmarks[c_key])
+                    c_bboxes = [
+                        v
+                        for _, v in ii.landmarks.items_matching(
+                            "__ert_current_bbox_*"
+                        )
+                    ]
                     current_bounding_boxes.append(c_bboxes)
 
             # Extract scaled ground truth shapes for current scale
diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..9f483c7 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -319,10 +319,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 wrap = partial(print_progress, prefix=msg,
                                end_with_newline=False, verbose=verbose)
                 for ii in wrap(scaled_images):
-                    c_shapes = []
-                    for k in list(range(self.n_perturbations)):
-                        c_key = '__sdm_current_shape_{}'.format(k)
-                        c_shapes.append(ii.landmarks[c_key])
+                    c_shapes = [v for _, v in ii.landmarks.items_matching(
+                        '__sdm_current_shape_*')]
                     current_shapes.append(c_shapes)
 
             # Train supervised descent algorithm. This returns the shape
@@ -363,8 +361,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 # shape estimations attached. If yes, delete them.
                 if '__sdm_current_shape_0' in image_batch[0].landmarks:
                     for image in image_batch:
-                        for k in list(range(self.n_perturbations)):
-                            c_key = '__sdm_current_shape_{}'.format(k)
+                        for c_key in list(image.landmarks.keys_matching(
+                                '__sdm_current_shape_*')):
                             del image.landmarks[c_key]
 
     def increment(self, images, group=None, bounding_box_group_glob=None,
-- 
2.43.0


From 3a95782dfef98b5419b854af56284f98bb74524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 44/99] fix: map the estimates of a cascade out of features
 that change the resolution

---
 menpofit/sdm/fitter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 9f483c7..a8859ec 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -5,6 +5,7 @@ import warnings
 
 from menpo.feature import no_op
 from menpo.base import name_of_callable
+from menpo.transform import AlignmentAffine
 
 from menpofit.visualize import print_progress
 from menpofit.base import batch
@@ -342,11 +343,16 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 if self.holistic_features[j + 1] != self.holistic_features[j]:
                     # Features will be extracted, thus attach current_shapes on
                     # the training images (image_batch)
+                    # (undoing the affine transform introduced by the features)
                     for jj, image_shapes in enumerate(current_shapes):
+                        transform = AlignmentAffine(
+                            feature_images[jj].landmarks[group],
+                            image_batch[jj].landmarks[group]).compose_after(
+                            scale_transforms[jj])
                         for k, shape in enumerate(image_shapes):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             image_batch[jj].landmarks[c_key] = \
-                                scale_transforms[jj].apply(shape)
+                                transform.apply(shape)
                 else:
                     # Features won't be extracted;. the same feature_images will
                     # be used for the next scale, thus attach current_shapes on
-- 
2.43.0


From 1f951ccc592e9115712fd92769d02d1a1378e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 45/99] fix: leave the image untouched when a fit cannot be
 prepared

---
 menpofit/fitter.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 4869de9..55ab06e 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -334,7 +334,9 @@ class MultiScaleNonParametricFitter(object):
         scale_transforms : `list` of `menpo.shape.Scale`
             The list of inverse scaling transforms per scale.
         """
-        # Attach landmarks to the image, in order to make transforms easier
+        # Attach landmarks to a copy of the image, in order to make transforms
+        # easier. The given image is left untouched, even if this raises.
+        image = image.copy()
         image.landmarks['__initial_shape'] = initial_shape
         if gt_shape:
             image.landmarks['__gt_shape'] = gt_shape
@@ -402,11 +404,6 @@ class MultiScaleNonParametricFitter(object):
         else:
             gt_shapes = None
 
-        # Detach added landmarks from image
-        del image.landmarks['__initial_shape']
-        if gt_shape:
-            del image.landmarks['__gt_shape']
-
         return (images, initial_shapes, gt_shapes, affine_transforms,
                 scale_transforms)
 
-- 
2.43.0


From 08d8b848c7c3d0985f0a01b23502ae997ca78eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 46/99] fix: leave the training images untouched when dlib
 training fails

---
 menpofit/dlib/fitter.py | 43 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 0e4ba7b..1fe06d1 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -269,28 +269,31 @@ class DlibERT(MultiScaleNonParametricFitter):
         if group is None:
             group = original_images[0].landmarks.group_labels[0]
 
-        # Temporarily store all the bounding boxes for rescaling
-        for i in original_images:
-            i.landmarks["__gt_bb"] = i.landmarks[group].bounding_box()
-
-        if self.reference_shape is None:
-            # If no reference shape was given, use the mean of the first batch
-            self._reference_shape = compute_reference_shape(
-                [i.landmarks["__gt_bb"] for i in original_images],
-                self.diagonal,
-                verbose=verbose,
-            )
-
-        # Rescale images wrt the scale factor between the existing
-        # reference_shape and their ground truth (group) bboxes
-        images = rescale_images_to_reference_shape(
-            original_images, "__gt_bb", self.reference_shape, verbose=verbose
-        )
+        try:
+            # Temporarily store all the bounding boxes for rescaling
+            for i in original_images:
+                i.landmarks["__gt_bb"] = i.landmarks[group].bounding_box()
+
+            if self.reference_shape is None:
+                # If no reference shape was given, use the mean of the first batch
+                self._reference_shape = compute_reference_shape(
+                    [i.landmarks["__gt_bb"] for i in original_images],
+                    self.diagonal,
+                    verbose=verbose,
+                )
 
-        # Scaling is done - remove temporary gt bounding boxes
-        for i, i2 in zip(original_images, images):
+            # Rescale images wrt the scale factor between the existing
+            # reference_shape and their ground truth (group) bboxes
+            images = rescale_images_to_reference_shape(
+                original_images, "__gt_bb", self.reference_shape, verbose=verbose
+            )
+        finally:
+            # Remove the temporary gt bounding boxes, even if something failed
+            for i in original_images:
+                if "__gt_bb" in i.landmarks:
+                    del i.landmarks["__gt_bb"]
+        for i in images:
             del i.landmarks["__gt_bb"]
-            del i2.landmarks["__gt_bb"]
 
         # Create a callable that generates perturbations of the bounding boxes
         # of the provided images.
-- 
2.43.0


From ce2ea5f8a09ebb19504c5909b001c4ca74bee102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 47/99] fix: draw as many appearance weights as the appearance
 model has components

---
 menpofit/aam/base.py             | 2 +-
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..8b7adfb 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -479,7 +479,7 @@ class AAM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..cdee18f 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -405,7 +405,7 @@ class UnifiedAAMCLM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
-- 
2.43.0


From 10eb16c9c0368d57a68b3fcfad8120b3fc794ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 48/99] fix: reconstruct the appearance of every scale from its
 own parameters

---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 8b7adfb..cf5bd13 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1250,7 +1250,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index cdee18f..f6c12e6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -483,7 +483,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From 13d088b66fdddb91ab5a602579b8a97566c45566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 49/99] fix: compute the pupil distances with the mapping
 menpo's labellers return

---
 menpofit/error/human/face.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/error/human/face.py b/menpofit/error/human/face.py
index 5aa7f55..b18c44e 100644
--- a/menpofit/error/human/face.py
+++ b/menpofit/error/human/face.py
@@ -80,7 +80,7 @@ def mean_pupil_68_error(shape, gt_shape):
         raise ValueError('Ground truth shape must have 68 points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_68_to_face_ibug_68(s, include_mapping=True)
+        _, mapping = face_ibug_68_to_face_ibug_68(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     return distance_normalised_error(euclidean_error, pupil_dist, shape,
@@ -134,7 +134,7 @@ def mean_pupil_49_error(shape, gt_shape):
                          'points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_49_to_face_ibug_49(s, include_mapping=True)
+        _, mapping = face_ibug_49_to_face_ibug_49(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     if shape.n_points == 68:
-- 
2.43.0


From 5dc05db5537e49a3d6a439d1cedbfaac599422bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 50/99] fix: accept point clouds in the shape normalisers as
 documented

---
 menpofit/error/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/menpofit/error/base.py b/menpofit/error/base.py
index acfc3b8..b8a65e7 100644
--- a/menpofit/error/base.py
+++ b/menpofit/error/base.py
@@ -19,6 +19,7 @@ def pointcloud_to_points(wrapped):
 
 
 # BOUNDING BOX NORMALISERS
+@pointcloud_to_points
 def bb_area(shape):
     r"""
     Computes the area of the bounding box of the provided shape,
@@ -44,6 +45,7 @@ def bb_area(shape):
     return height * width
 
 
+@pointcloud_to_points
 def bb_perimeter(shape):
     r"""
     Computes the perimeter of the bounding box of the provided shape, i.e.
@@ -68,6 +70,7 @@ def bb_perimeter(shape):
     return 2 * (height + width)
 
 
+@pointcloud_to_points
 def bb_avg_edge_length(shape):
     r"""
     Computes the average edge length of the bounding box of the provided shape,
@@ -93,6 +96,7 @@ def bb_avg_edge_length(shape):
     return 0.5 * (height + width)
 
 
+@pointcloud_to_points
 def bb_diagonal(shape):
     r"""
     Computes the diagonal of the bounding box of the provided shape, i.e.
@@ -182,6 +186,7 @@ def euclidean_error(shape, gt_shape):
 
 
 # DISTANCE NORMALISER
+@pointcloud_to_points
 def distance_two_indices(index1, index2, shape):
     r"""
     Computes the Euclidean distance between two points of a shape, i.e.
-- 
2.43.0


From 1bdd658abf637fe053475f4b0a74d96fdcc07051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 51/99] fix: compute the cumulative error distribution of lists
 at any bins

---
 menpofit/error/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index b1a76fd..19938ca 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -25,6 +25,7 @@ def compute_cumulative_error(errors, bins):
     ced : `list` of `float`
         The computed CED.
     """
+    errors = np.asarray(errors)
     n_errors = len(errors)
     return [np.count_nonzero([errors <= x]) / n_errors for x in bins]
 
-- 
2.43.0


From a56c859a903ac49990b6a6b9e78711136cc5a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 52/99] fix: measure the area under the curve and the failure
 rate on the range given

---
 menpofit/error/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index 19938ca..f7c009a 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -72,9 +72,11 @@ def area_under_curve_and_failure_rate(errors, step_error, max_error,
     fr : `float`
         The Failure Rate value.
     """
-    x_axis = list(np.arange(min_error, max_error + step_error, step_error))
+    # the bins span exactly [min_error, max_error], at most step_error apart
+    n_steps = int(np.ceil((max_error - min_error) / step_error - 1e-6))
+    x_axis = list(np.linspace(min_error, max_error, max(n_steps, 1) + 1))
     ced = np.array(compute_cumulative_error(errors, x_axis))
-    return simps(ced, x=x_axis) / max_error, 1. - ced[-1]
+    return simps(ced, x=x_axis) / (max_error - min_error), 1. - ced[-1]
 
 
 def compute_statistical_measures(errors, step_error, max_error, min_error=0.):
-- 
2.43.0


From 28a040d54ac1ba902456f3eca88073452a93dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 53/99] fix: set the precision of the statistics table by its
 full option name

---
 menpofit/visualize/textutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index 99f8efa..df4c735 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -254,6 +254,6 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
                         inplace=True, ascending=ascending)
 
     # Set precision
-    pn.set_option('precision', precision)
+    pn.set_option('display.precision', precision)
 
     return tab
-- 
2.43.0


From 4ee6075927845f6216abe228823595abf2dfe858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 54/99] fix: tell the errors of several methods from those of
 one in any container

---
 menpofit/visualize/base.py      | 2 +-
 menpofit/visualize/textutils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 8cb5b65..dfab823 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -771,7 +771,7 @@ def plot_cumulative_error_distribution(
     from menpo.visualize import plot_curve
 
     # make sure that errors is a list even with one list member
-    if not isinstance(errors[0], list):
+    if np.ndim(errors[0]) == 0:
         errors = [errors]
 
     # create x and y axes lists
diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index df4c735..80d5ad4 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -196,7 +196,7 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
     import pandas as pn
 
     # Make sure errors is a list of lists
-    if not isinstance(errors[0], list):
+    if np.ndim(errors[0]) == 0:
         errors = [errors]
 
     # Compute statistics
-- 
2.43.0


From 67bc4ad716f836d2854ddc5b2d185c5cd7a91aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 55/99] fix: expand viewing options without changing the
 caller's lists

---
 menpofit/visualize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index dfab823..a3d40c4 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -16,7 +16,7 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
         arg = [arg] * n_objects
     elif isinstance(arg, list):
         if len(arg) == 1:
-            arg *= n_objects
+            arg = arg * n_objects
         elif len(arg) != n_objects:
             raise ValueError(error_str)
     else:
-- 
2.43.0


From 646aef35d636c7b5cec66b20c224d4fc10dd60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 56/99] fix: apply the alignment noise about the target it is
 defined for

---
 menpofit/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 55ab06e..699d272 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -90,7 +90,9 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         raise ValueError('Unexpected noise type. '
                          'Supported values are {gaussian, uniform}')
 
-    return similarity.compose_after(t.compose_after(s.compose_after(r)))
+    # The noise is defined about (and relative to the range of) the target, thus
+    # it is applied after the alignment
+    return t.compose_after(s.compose_after(r)).compose_after(similarity)
 
 
 def noisy_target_alignment_transform(source, target,
-- 
2.43.0


From cd763d26384586a34750902b32c6bea89c5b0b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 57/99] fix: accept integer sampling steps as documented

---
 menpofit/aam/algorithm/lk.py | 6 +++++-
 menpofit/aps/algorithm/gn.py | 4 ++++
 menpofit/checks.py           | 5 +++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..567662c 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -58,7 +58,7 @@ class LucasKanadeBaseInterface(object):
 
         if sampling is None:
             sampling = range(0, n_true_pixels, 1)
-        elif isinstance(sampling, np.int64):
+        elif isinstance(sampling, (int, np.integer)):
             sampling = range(0, n_true_pixels, sampling)
 
         sampling_mask[sampling] = 1
@@ -474,6 +474,10 @@ class LucasKanadePatchBaseInterface(LucasKanadeBaseInterface):
     def _build_sampling_mask(self, sampling):
         if sampling is None:
             sampling = np.ones(self.patch_shape, dtype=bool)
+        elif isinstance(sampling, (int, np.integer)):
+            step = sampling
+            sampling = np.zeros(self.patch_shape, dtype=bool)
+            sampling.flat[::step] = True
 
         image_shape = self.template.pixels.shape
         image_mask = np.tile(sampling[None, None, None, ...],
diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index b6d6624..f90a9fb 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -54,6 +54,10 @@ class GaussNewtonBaseInterface(object):
     def _build_sampling_mask(self, sampling):
         if sampling is None:
             sampling = np.ones(self.patch_shape, dtype=bool)
+        elif isinstance(sampling, (int, np.integer)):
+            step = sampling
+            sampling = np.zeros(self.patch_shape, dtype=bool)
+            sampling.flat[::step] = True
 
         image_shape = self.template.pixels.shape
         image_mask = np.tile(sampling[None, None, None, ...],
diff --git a/menpofit/checks.py b/menpofit/checks.py
index a7eceb9..40eb75f 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -347,7 +347,7 @@ def check_sampling(sampling, n_scales):
         containing 1 or {n_scales} elements or None
     """
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or s is None
+        np.alltrue([isinstance(s, (np.ndarray, np.integer, int)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
             return sampling * n_scales
@@ -357,7 +357,8 @@ def check_sampling(sampling, n_scales):
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
                              'elements'.format(n_scales))
-    elif isinstance(sampling, (np.ndarray, np.int64)) or sampling is None:
+    elif (isinstance(sampling, (np.ndarray, np.integer, int)) or
+          sampling is None):
         return [sampling] * n_scales
     else:
         raise ValueError('sampling can be an integer or ndarray, '
-- 
2.43.0


From 2d6fa96e8858d38fc22737ef80f11d8fbd28581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 58/99] fix: accept a single scale given as a number

---
 menpofit/atm/base.py | 14 ++++++++++----
 menpofit/clm/base.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..0368309 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -119,8 +119,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
-        n_scales = len(scales)
         scales = checks.check_scales(scales)
+        n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
         max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
@@ -537,7 +537,9 @@ class MaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         # Call superclass
         super(MaskedATM, self).__init__(
             template,
@@ -821,7 +823,9 @@ class LinearMaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -986,7 +990,9 @@ class PatchATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         self.patch_normalisation = patch_normalisation
         # Call superclass
         super(PatchATM, self).__init__(
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index dab51f4..b7bf887 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -126,7 +126,7 @@ class CLM(object):
         batch_size=None,
     ):
         self.scales = checks.check_scales(scales)
-        n_scales = len(scales)
+        n_scales = len(self.scales)
         self.diagonal = checks.check_diagonal(diagonal)
         self.holistic_features = checks.check_callable(holistic_features, n_scales)
         self.expert_ensemble_cls = checks.check_callable(expert_ensemble_cls, n_scales)
-- 
2.43.0


From f231428064bebb4b6884df2fef997d29a83c6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 59/99] fix: reject numbers of components that are out of range

---
 menpofit/checks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 40eb75f..8635e57 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -274,14 +274,16 @@ def check_max_components(max_components, n_scales, var_name):
     elif len(max_components) == 1:
         max_components_list = [max_components[0]] * n_scales
     elif len(max_components) == n_scales:
-        max_components_list = max_components
+        max_components_list = list(max_components)
     else:
         raise ValueError(str_error)
     for comp in max_components_list:
         if comp is not None:
-            if not isinstance(comp, int):
-                if not isinstance(comp, float):
+            if isinstance(comp, int):
+                if comp <= 0:
                     raise ValueError(str_error)
+            elif not isinstance(comp, float) or not 0 <= comp <= 1:
+                raise ValueError(str_error)
     return max_components_list
 
 
-- 
2.43.0


From 9125519c3910c3a590f1b61f8759b3d5b39493e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 60/99] fix: accept patch shapes given as lists and reject
 partly integer ones

---
 menpofit/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 8635e57..7687540 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -226,8 +226,8 @@ def check_patch_shape(patch_shape, n_scales):
         patch_shape must be a list/tuple of int or a list/tuple of lit/tuple of
         int/float with the same length as the number of scales
     """
-    if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
-        return [patch_shape] * n_scales
+    if len(patch_shape) == 2 and all(isinstance(s, int) for s in patch_shape):
+        return [tuple(patch_shape)] * n_scales
     elif len(patch_shape) == 1:
         return check_patch_shape(patch_shape[0], n_scales)
     elif len(patch_shape) == n_scales:
-- 
2.43.0


From 8755058b33bfb1486248d54cc7b7c6d1649591fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 61/99] fix: give a provided reference shape the requested
 diagonal and use it

---
 menpofit/aam/base.py             |  3 +++
 menpofit/aps/base.py             |  3 +++
 menpofit/atm/base.py             |  3 +++
 menpofit/clm/base.py             |  3 +++
 menpofit/dlib/fitter.py          |  3 +++
 menpofit/sdm/fitter.py           |  4 ++++
 menpofit/unified_aam_clm/base.py | 10 +++++++---
 7 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index cf5bd13..e6f28f2 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -155,6 +155,9 @@ class AAM(object):
         self.scales = scales
         self.max_shape_components = max_shape_components
         self.max_appearance_components = max_appearance_components
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape], diagonal)
         self.reference_shape = reference_shape
         self._shape_model_cls = shape_model_cls
         self.shape_models = []
diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5e47dc5..eb777ba 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -172,6 +172,9 @@ class GenerativeAPS(object):
         self.holistic_features = holistic_features
         self.patch_shape = patch_shape
         self.patch_normalisation = patch_normalisation
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape], diagonal)
         self.reference_shape = reference_shape
         self.use_procrustes = use_procrustes
         self.is_incremental = can_be_incremented
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 0368309..6ca2aa4 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -132,6 +132,9 @@ class ATM(object):
         self.diagonal = diagonal
         self.scales = scales
         self.max_shape_components = max_shape_components
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape], diagonal)
         self.reference_shape = reference_shape
         self.shape_models = []
         self.warped_templates = []
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index b7bf887..fc01bf2 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -134,6 +134,9 @@ class CLM(object):
         self.max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
         )
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape], diagonal)
         self.reference_shape = reference_shape
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         self.patch_normalisation = patch_normalisation
diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 1fe06d1..3d3501c 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -160,6 +160,9 @@ class DlibERT(MultiScaleNonParametricFitter):
         # Dummy option that is required by _prepare_image of MultiFitter.
         holistic_features = checks.check_callable(no_op, n_scales)
 
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape], diagonal)
         # Call superclass
         super(DlibERT, self).__init__(
             scales=scales,
diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index a8859ec..ed68769 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -166,6 +166,10 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
         holistic_features = checks.check_callable(holistic_features, n_scales)
         patch_shape = checks.check_patch_shape(patch_shape, n_scales)
 
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape],
+                                                      diagonal)
         # Call superclass
         super(SupervisedDescentFitter, self).__init__(
             scales=scales, reference_shape=reference_shape,
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index f6c12e6..8c29722 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -171,6 +171,9 @@ class UnifiedAAMCLM(object):
         self.scales = scales
         self.max_shape_components = max_shape_components
         self.max_appearance_components = max_appearance_components
+        if reference_shape is not None:
+            # The provided reference shape gets the requested diagonal
+            reference_shape = compute_reference_shape([reference_shape], diagonal)
         self.reference_shape = reference_shape
         self.shape_model_cls = shape_model_cls
         self.sigma = sigma
@@ -203,9 +206,10 @@ class UnifiedAAMCLM(object):
 
     def _train(self, images, group=None, verbose=False):
         checks.check_landmark_trilist(images[0], self.transform, group=group)
-        self.reference_shape = compute_reference_shape(
-            [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
-        )
+        if self.reference_shape is None:
+            self.reference_shape = compute_reference_shape(
+                [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
+            )
 
         # normalize images
         images = rescale_images_to_reference_shape(
-- 
2.43.0


From 38418ae23870fe96a4b8811a14be6c6253892ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 62/99] fix: use the bounding box of a reference shape given to
 DlibERT

---
 menpofit/dlib/fitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 3d3501c..67cf3c3 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -161,8 +161,11 @@ class DlibERT(MultiScaleNonParametricFitter):
         holistic_features = checks.check_callable(no_op, n_scales)
 
         if reference_shape is not None:
-            # The provided reference shape gets the requested diagonal
-            reference_shape = compute_reference_shape([reference_shape], diagonal)
+            # Images are rescaled by their bounding boxes, thus the reference is
+            # the bounding box of the provided shape, with the requested diagonal
+            reference_shape = compute_reference_shape(
+                [reference_shape.bounding_box()], diagonal
+            )
         # Call superclass
         super(DlibERT, self).__init__(
             scales=scales,
-- 
2.43.0


From ed286abf1a5bb09ac1e211202a8aee1c405985d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 63/99] fix: return samplings and graphs in lists of their own

---
 menpofit/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 7687540..9f39b75 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -352,9 +352,9 @@ def check_sampling(sampling, n_scales):
         np.alltrue([isinstance(s, (np.ndarray, np.integer, int)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
-            return sampling * n_scales
+            return list(sampling) * n_scales
         elif len(sampling) == n_scales:
-            return sampling
+            return list(sampling)
         else:
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
@@ -500,7 +500,7 @@ def check_graph(graph, graph_types, param_name, n_scales):
     elif len(graph) == 1:
         graphs = graph * n_scales
     elif len(graph) == n_scales:
-        graphs = graph
+        graphs = list(graph)
     else:
         raise ValueError('{} must be a list of length equal to the number of '
                          'scales.'.format(param_name))
-- 
2.43.0


From e7084c752171ae2e98a4c38e498c0d544ed8ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 64/99] fix: keep the reference frame of every scale of linear
 models

---
 menpofit/aam/base.py | 28 +++++++++++++++++++---------
 menpofit/atm/base.py | 28 +++++++++++++++++++---------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index e6f28f2..dc9c690 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -784,6 +784,8 @@ class LinearAAM(AAM):
         verbose=False,
         batch_size=None,
     ):
+        # The reference frame of each scale
+        self.reference_frames = []
         super(LinearAAM, self).__init__(
             images,
             group=group,
@@ -810,8 +812,10 @@ class LinearAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(build_reference_frame(mean_aligned_shape))
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
+        )
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -820,7 +824,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -835,7 +839,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -962,6 +966,8 @@ class LinearMaskedAAM(AAM):
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
+        # The reference frame of each scale
+        self.reference_frames = []
         super(LinearMaskedAAM, self).__init__(
             images,
             group=group,
@@ -988,10 +994,14 @@ class LinearMaskedAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
-            mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+        self.reference_frames.append(
+            build_patch_reference_frame(
+                mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+            )
+        )
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -999,7 +1009,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1014,7 +1024,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 6ca2aa4..44fbab9 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -665,6 +665,8 @@ class LinearATM(ATM):
         verbose=False,
         batch_size=None,
     ):
+        # The reference frame of each scale
+        self.reference_frames = []
         super(LinearATM, self).__init__(
             template,
             shapes,
@@ -690,8 +692,10 @@ class LinearATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(build_reference_frame(mean_aligned_shape))
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
+        )
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -700,7 +704,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -716,7 +720,7 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -830,6 +834,8 @@ class LinearMaskedATM(ATM):
             patch_shape, len(checks.check_scales(scales))
         )
         # Call superclass
+        # The reference frame of each scale
+        self.reference_frames = []
         super(LinearMaskedATM, self).__init__(
             template,
             shapes,
@@ -855,10 +861,14 @@ class LinearMaskedATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
-            mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+        self.reference_frames.append(
+            build_patch_reference_frame(
+                mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+            )
+        )
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -866,7 +876,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -882,7 +892,7 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
-- 
2.43.0


From 6d931869fb5c770dd699af0ac9a3687f6029d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 65/99] fix: replace the template of every scale when a
 template model is incremented

---
 menpofit/atm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 44fbab9..d175318 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -285,7 +285,10 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if not increment:
+                self.warped_templates.append(warped_template[0])
+            else:
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From 731ff1ac229a228a1a4f72961a1694b9d236fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 66/99] fix: results keep their own copies of the initial and
 ground truth shapes

---
 menpofit/result.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index cab04a5..285555e 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -58,8 +58,13 @@ class Result(object):
 
     def __init__(self, final_shape, image=None, initial_shape=None, gt_shape=None):
         self._final_shape = final_shape
-        self._initial_shape = initial_shape
-        self._gt_shape = gt_shape
+        # The shapes given by the caller are copied, as the image is
+        self._initial_shape = None
+        if initial_shape is not None:
+            self._initial_shape = initial_shape.copy()
+        self._gt_shape = None
+        if gt_shape is not None:
+            self._gt_shape = gt_shape.copy()
         # If image is provided, create a copy
         self._image = None
         if image is not None:
-- 
2.43.0


From 7ccfec97bcd20f58371456815ea4c59d72f3c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 67/99] fix: evaluate the appearance cost of pictorial
 structures on the sampled pixels

---
 menpofit/aps/algorithm/gn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index f90a9fb..3298665 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -427,8 +427,8 @@ class Inverse(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            # mahalanobis distance over the sampled appearance
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
@@ -565,8 +565,8 @@ class Forward(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            # mahalanobis distance over the sampled appearance
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
-- 
2.43.0


From 3f3f49124b1459c5a772bc9dc9f9e2716754794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 68/99] fix: return a copy of the template of patch template
 models

---
 menpofit/atm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index d175318..b7d9bc7 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -1047,7 +1047,7 @@ class PatchATM(ATM):
         )
 
     def _instance(self, shape_instance, template):
-        return shape_instance, template
+        return shape_instance, template.copy()
 
     def build_fitter_interfaces(self, sampling):
         r"""
-- 
2.43.0


From 29746b336945c3cf4269b08ca117d1927531f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 69/99] fix: do not add the prior to the precomputed Hessians
 of the fitter

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 567662c..67089a6 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -14,7 +14,7 @@ def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -229,7 +229,7 @@ class LucasKanadeBaseInterface(object):
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From b4bfb1e5fe1249c2b2062da40a0da9cfbf49e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 70/99] fix: compare numbers of parameters by value

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 67089a6..2bfa913 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,7 +8,7 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
@@ -224,7 +224,7 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
-- 
2.43.0


From 21076940a3e41205d3d0e31efd4af5cf5fd34d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 71/99] fix: let the priors of map inference pull towards the
 model's mean

---
 menpofit/aam/algorithm/lk.py | 27 ++++++++++++++-------------
 menpofit/atm/algorithm.py    |  7 ++++---
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 2bfa913..695dd2c 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -777,7 +777,8 @@ class LucasKanade(object):
         sm_noise_variance = self.interface.shape_model.noise_variance() or 1
         s2 = self.appearance_model.noise_variance() / sm_noise_variance
         L = self.interface.shape_model.eigenvalues
-        self.s2_inv_L = np.hstack((np.ones((4,)), s2 / L))
+        # (it does not constrain the global similarity parameters)
+        self.s2_inv_L = np.hstack((np.zeros((4,)), s2 / L))
         # compute appearance model prior
         S = self.appearance_model.eigenvalues
         self.s2_inv_S = s2 / S
@@ -932,7 +933,7 @@ class ProjectOutInverseCompositional(ProjectOut):
         # compute appearance model mean gradient
         nabla_a = self.interface.gradient(self.a_bar)
         # compute masked inverse Jacobian
-        J_m = self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        J_m = self.interface.steepest_descent_images(nabla_a, self.dW_dp)
         # project out appearance model from it
         self.QJ_m = self.project_out(J_m)
         # compute masked inverse Hessian
@@ -952,7 +953,7 @@ class ProjectOutInverseCompositional(ProjectOut):
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Project-Out Inverse Compositional Algorithm"
@@ -1116,12 +1117,12 @@ class SimultaneousInverseCompositional(Simultaneous):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Project-Out Inverse Compositional Algorithm"
@@ -1210,7 +1211,7 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = - self.s2_inv_S * c + self.A_m.T.dot(e_m + Jdp)
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1222,7 +1223,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
@@ -1295,12 +1296,12 @@ class AlternatingInverseCompositional(Alternating):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Alternating Inverse Compositional Algorithm"
@@ -1458,12 +1459,12 @@ class ModifiedAlternatingInverseCompositional(ModifiedAlternating):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Modified Alternating Inverse Compositional Algorithm"
@@ -1626,12 +1627,12 @@ class WibergInverseCompositional(Wiberg):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Wiberg Inverse Compositional Algorithm"
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index 39b3db8..7de4fef 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -213,7 +213,8 @@ class LucasKanade(object):
         noise_variance = self.interface.shape_model.noise_variance() or 1
         s2 = 1.0 / noise_variance
         L = self.interface.shape_model.eigenvalues
-        self.s2_inv_L = np.hstack((np.ones((4,)), s2 / L))
+        # (it does not constrain the global similarity parameters)
+        self.s2_inv_L = np.hstack((np.zeros((4,)), s2 / L))
 
 
 class Compositional(LucasKanade):
@@ -354,7 +355,7 @@ class InverseCompositional(Compositional):
         # compute appearance model mean gradient
         nabla_t = self.interface.gradient(self.template)
         # compute masked inverse Jacobian
-        self.J_m = self.interface.steepest_descent_images(-nabla_t, self.dW_dp)
+        self.J_m = self.interface.steepest_descent_images(nabla_t, self.dW_dp)
         # compute masked inverse Hessian
         self.JJ_m = self.J_m.T.dot(self.J_m)
         # compute masked Jacobian pseudo-inverse
@@ -372,7 +373,7 @@ class InverseCompositional(Compositional):
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Inverse Compositional Algorithm"
-- 
2.43.0


From df5d3c61465a0d4cfa3fa2a1bd2b666d148529af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 72/99] fix: keep the whole system of thin plate splines at
 image sizes

---
 menpofit/transform/thinsplatesplines.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index b26b2d6..33549d9 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -27,7 +27,12 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
     def __init__(self, source, target, kernel=None):
         if kernel is None:
             kernel = DifferentiableR2LogR2RBF(source.points)
-        ThinPlateSplines.__init__(self, source, target, kernel=kernel)
+        # The smallest singular values of the system decrease with the square of
+        # the size of the landmarks, so only the ones of coincident landmarks
+        # are to be dropped. Otherwise, the warp would neither be the spline
+        # that the derivatives describe nor reproduce affine warps.
+        ThinPlateSplines.__init__(self, source, target, kernel=kernel,
+                                  min_singular_val=1e-10)
 
     def d_dl(self, points):
         """
-- 
2.43.0


From c0ed47c1bf8ba91b89cf8e6d7839dd90f5071bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 73/99] fix: name the simultaneous inverse compositional
 algorithm

---
 menpofit/aam/algorithm/lk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 695dd2c..0093d4c 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1125,7 +1125,7 @@ class SimultaneousInverseCompositional(Simultaneous):
             self.transform.as_vector() + self.dp)
 
     def __str__(self):
-        return "Project-Out Inverse Compositional Algorithm"
+        return "Simultaneous Inverse Compositional Algorithm"
 
 
 class Alternating(LucasKanade):
-- 
2.43.0


From 0443034470b0574b40de4fd5dc15d34d39c540ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 74/99] fix: generate the instances of masked template models
 of the scale asked for

---
 menpofit/atm/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index b7d9bc7..16f753d 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -405,7 +405,7 @@ class ATM(object):
         template = self.warped_templates[scale_index]
 
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
     def random_instance(self, scale_index=-1):
         r"""
@@ -428,9 +428,9 @@ class ATM(object):
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
 
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_reference_frame(shape_instance)
@@ -581,11 +581,11 @@ class MaskedATM(ATM):
     def _str_title(self):
         return "Masked Active Template Model"
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_patch_reference_frame(
-            shape_instance, patch_shape=self.patch_shape
+            shape_instance, patch_shape=self.patch_shape[scale_index]
         )
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
@@ -730,7 +730,7 @@ class LinearATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -902,7 +902,7 @@ class LinearMaskedATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -1046,7 +1046,7 @@ class PatchATM(ATM):
             verbose=verbose,
         )
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         return shape_instance, template.copy()
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0


From d0634818f961479d76c8359e502e0103c499b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 75/99] fix: build template models at the size of their
 reference shape

---
 menpofit/atm/base.py |  6 ++++++
 menpofit/builder.py  | 22 ++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 16f753d..393066b 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -28,6 +28,7 @@ from menpofit.builder import (
     extract_patches,
     MenpoFitBuilderWarning,
     compute_reference_shape,
+    rescale_shapes_to_reference_shape,
 )
 
 from .algorithm import (
@@ -193,6 +194,11 @@ class ATM(object):
                     self.reference_shape, group=group
                 )
 
+            # Rescale the shapes to the reference shape
+            shape_batch = rescale_shapes_to_reference_shape(
+                shape_batch, self.reference_shape
+            )
+
             # After the first batch, we are incrementing the model
             if k > 0:
                 increment = True
diff --git a/menpofit/builder.py b/menpofit/builder.py
index 72f967a..0ac8277 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -90,6 +90,28 @@ def rescale_images_to_reference_shape(images, group, reference_shape,
     return normalized_images
 
 
+def rescale_shapes_to_reference_shape(shapes, reference_shape):
+    r"""
+    Function that normalises a set of shapes with respect to the scale of the
+    reference shape. This is what
+    :map:`rescale_images_to_reference_shape` does to the landmarks of images.
+
+    Parameters
+    ----------
+    shapes : `list` of `menpo.shape.PointCloud`
+        The set of shapes to rescale.
+    reference_shape : `menpo.shape.PointCloud`
+        The reference shape.
+
+    Returns
+    -------
+    normalized_shapes : `list` of `menpo.shape.PointCloud`
+        The list of rescaled shapes.
+    """
+    return [Scale(reference_shape.norm() / s.norm(), s.n_dims).apply(s)
+            for s in shapes]
+
+
 def normalization_wrt_reference_shape(images, group, diagonal, verbose=False):
     r"""
     Function that normalizes the images' sizes with respect to the size of the
-- 
2.43.0


From f73e05a8cf47772e64f62f3de2cd6e7a23ff73b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 76/99] fix: smooth the images of a unified model along their
 spatial dimensions only

---
 menpofit/unified_aam_clm/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 8c29722..dc030b6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -25,6 +25,8 @@ from menpofit.transform import DifferentiablePiecewiseAffine, OrthoMDTransform
 
 @ndfeature
 def fsmooth(pixels, sigma, mode="constant"):
+    # Only the spatial dimensions are smoothed, never across channels
+    sigma = (0,) + (sigma,) * (pixels.ndim - 1)
     return gaussian_filter(pixels, sigma, mode=mode)
 
 
-- 
2.43.0


From 8cf9a4a57c00aa8a835deca03c7fb3b79a548351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 77/99] fix: leave the boundary asked for around the frames of
 a unified model

---
 menpofit/unified_aam_clm/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index dc030b6..e96aab1 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -196,7 +196,7 @@ class UnifiedAAMCLM(object):
     def _warp_images(
         self, images, shapes, reference_shape, scale_index, prefix, verbose
     ):
-        reference_frame = build_reference_frame(reference_shape)
+        reference_frame = self._build_reference_frame(reference_shape)
         return warp_images(
             images,
             shapes,
@@ -420,7 +420,7 @@ class UnifiedAAMCLM(object):
         template = self.appearance_models[scale_index].mean()
         landmarks = template.landmarks["source"]
 
-        reference_frame = build_reference_frame(shape_instance)
+        reference_frame = self._build_reference_frame(shape_instance)
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
 
-- 
2.43.0


From 44769039fa934f8cafef5a5054b093fbd336392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 78/99] fix: invert thin plate splines by splines that
 interpolate

---
 menpofit/transform/thinsplatesplines.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index 33549d9..201b706 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -34,6 +34,17 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
         ThinPlateSplines.__init__(self, source, target, kernel=kernel,
                                   min_singular_val=1e-10)
 
+    def pseudoinverse(self):
+        r"""
+        The pseudoinverse of the transform - that is, the transform that
+        results from swapping `source` and `target`, with its kernel centred on
+        its own source.
+
+        :type: ``type(self)``
+        """
+        return type(self)(self.target, self.source,
+                          kernel=type(self.kernel)(self.target.points))
+
     def d_dl(self, points):
         """
         Calculates the Jacobian of the TPS warp wrt to the source landmarks
-- 
2.43.0


From ecd60df2c178ef52ca8db4ca3ead8195b67c5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 79/99] fix: keep the shape components asked for when pictorial
 structures are incremented

---
 menpofit/aps/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index eb777ba..2c75909 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -324,7 +324,11 @@ class GenerativeAPS(object):
                     )
                 )
             else:
-                self.shape_models[j].increment(aligned_shapes, verbose=verbose)
+                self.shape_models[j].increment(
+                    aligned_shapes,
+                    max_n_components=self.max_shape_components[j],
+                    verbose=verbose,
+                )
 
             # Build the deformation model
             if verbose:
-- 
2.43.0


From 87addc5ddc4dd03585d588ed5f5c3f546e2b50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 80/99] fix: refuse to increment pictorial structures before
 changing their shape models

---
 menpofit/aps/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 2c75909..9ba98c5 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -248,6 +248,12 @@ class GenerativeAPS(object):
             )
 
     def _train_batch(self, image_batch, increment=False, group=None, verbose=False):
+        # Check that all the models can be incremented before changing any
+        if increment and not self.is_incremental:
+            raise ValueError(
+                "The APS cannot be incrementally updated: it was "
+                "trained with can_be_incremented=False."
+            )
         # Rescale to existing reference shape
         image_batch = rescale_images_to_reference_shape(
             image_batch, group, self.reference_shape, verbose=verbose
-- 
2.43.0


From 5c282dbe55c47f2bcc227ebb90ffc68a6f570ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 81/99] fix: densify targets with the bases of the incremented
 model

---
 menpofit/transform/modeldriven.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 95adc2a..0923c22 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -544,8 +544,13 @@ class LinearOrthoMDTransform(OrthoPDM, Transform):
         The source landmarks of the transform.
     """
     def __init__(self, model, sparse_instance):
-        super(LinearOrthoMDTransform, self).__init__(model)
         self._sparse_instance = sparse_instance
+        super(LinearOrthoMDTransform, self).__init__(model)
+
+    def _construct_similarity_model(self):
+        super(LinearOrthoMDTransform, self)._construct_similarity_model()
+        # The bases that densify sparse targets are the ones of the models, which
+        # change whenever the model is incremented
         self.W = np.vstack((self.similarity_model.components,
                             self.model.components))
         V = self.W[:, :self.n_dims*self.n_landmarks]
-- 
2.43.0


From b29789566060859760e498736afb3d7aea8e52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 82/99] fix: align the shapes that increment a model to the
 ones it was built from

---
 menpofit/aam/base.py      |  6 ++----
 menpofit/aps/base.py      |  6 ++++--
 menpofit/atm/base.py      |  6 ++----
 menpofit/builder.py       | 11 +++++++++--
 menpofit/modelinstance.py |  6 ++++--
 5 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index dc9c690..1b30e4a 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -822,9 +822,8 @@ class LinearAAM(AAM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frames[scale_index], self.transform
+            shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1007,9 +1006,8 @@ class LinearMaskedAAM(AAM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frames[scale_index], self.transform
+            shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 9ba98c5..d83126a 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -313,8 +313,10 @@ class GenerativeAPS(object):
             # Extract potentially rescaled shapes
             scale_shapes = [i.landmarks[group] for i in scaled_images]
 
-            # Apply procrustes to align the shapes
-            aligned_shapes = align_shapes(scale_shapes)
+            # Apply procrustes to align the shapes, to the ones that have already
+            # been seen if there are any
+            mean_shape = self.shape_models[j].model.mean() if increment else None
+            aligned_shapes = align_shapes(scale_shapes, target=mean_shape)
 
             # Build the shape model using the aligned shapes
             if verbose:
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 393066b..3e6cc04 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -711,9 +711,8 @@ class LinearATM(ATM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frames[scale_index], self.transform
+            shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -883,9 +882,8 @@ class LinearMaskedATM(ATM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frames[scale_index], self.transform
+            shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
diff --git a/menpofit/builder.py b/menpofit/builder.py
index 0ac8277..a9ecdb3 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -6,7 +6,8 @@ import numpy as np
 from menpo.shape import mean_pointcloud, PointCloud, TriMesh
 from menpo.image import Image, MaskedImage
 from menpo.feature import no_op
-from menpo.transform import Scale, Translation, GeneralizedProcrustesAnalysis
+from menpo.transform import (AlignmentSimilarity, Scale, Translation,
+                             GeneralizedProcrustesAnalysis)
 from menpo.visualize import print_dynamic
 
 from menpofit.visualize import print_progress
@@ -426,7 +427,7 @@ def densify_shapes(shapes, reference_frame, transform):
     return dense_shapes
 
 
-def align_shapes(shapes):
+def align_shapes(shapes, target=None):
     r"""
     Function that aligns a set of shapes by applying Generalized Procrustes
     Analysis.
@@ -435,12 +436,18 @@ def align_shapes(shapes):
     ----------
     shapes : `list` of `menpo.shape.PointCloud`
         The input shapes.
+    target : `menpo.shape.PointCloud` or ``None``, optional
+        If provided, then each shape is aligned to this one, e.g. to the mean of
+        shapes that have already been aligned, instead of among themselves.
 
     Returns
     -------
     aligned_shapes : `list` of `menpo.shape.PointCloud`
         The list of aligned shapes.
     """
+    if target is not None:
+        return [AlignmentSimilarity(s, target).aligned_source()
+                for s in shapes]
     # centralize shapes
     centered_shapes = [Translation(-s.centre()).apply(s) for s in shapes]
     # align centralized shape using Procrustes Analysis
diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 6485b0b..fe9eb6a 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -398,7 +398,8 @@ class PDM(ModelInstance):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes)
+        # Align to the shapes that the model has already been built from
+        aligned_shapes = align_shapes(shapes, target=self.model.mean())
         self.model.increment(aligned_shapes, n_samples=n_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
@@ -692,7 +693,8 @@ class OrthoPDM(GlobalPDM):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes)
+        # Align to the shapes that the model has already been built from
+        aligned_shapes = align_shapes(shapes, target=self.model.mean())
         self.model.increment(aligned_shapes, n_samples=n_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
-- 
2.43.0


From 195452cdec7db44262e912449c7661ccecf81241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 83/99] fix: trim models that keep less variance than asked for

menpo refuses to set the active components of a model by a ratio of variance
that the model does not keep, so incrementing a model that had been trimmed by
a ratio (the trimmed components carry part of that ratio), or asking for all
of the variance of a model up to rounding, failed half way.
---
 menpofit/aam/base.py             | 12 +++++-------
 menpofit/modelinstance.py        | 33 ++++++++++++++++++++++++++------
 menpofit/unified_aam_clm/base.py |  5 ++---
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 1b30e4a..e07e7bd 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -15,7 +15,7 @@ from menpofit.aam.algorithm.lk import (
     LucasKanadePatchInterface,
     LucasKanadeLinearInterface,
 )
-from menpofit.modelinstance import OrthoPDM
+from menpofit.modelinstance import OrthoPDM, trim_components
 from menpofit.transform import (
     DifferentiableThinPlateSplines,
     DifferentiablePiecewiseAffine,
@@ -318,8 +318,7 @@ class AAM(object):
             if not increment:
                 appearance_model = PCAModel(warped_images)
                 # trim appearance model if required
-                if self.max_appearance_components[j] is not None:
-                    appearance_model.trim_components(self.max_appearance_components[j])
+                trim_components(appearance_model, self.max_appearance_components[j])
                 # add appearance model to the list
                 self.appearance_models.append(appearance_model)
             else:
@@ -328,10 +327,9 @@ class AAM(object):
                     warped_images, forgetting_factor=appearance_forgetting_factor
                 )
                 # trim appearance model if required
-                if self.max_appearance_components[j] is not None:
-                    self.appearance_models[j].trim_components(
-                        self.max_appearance_components[j]
-                    )
+                trim_components(
+                    self.appearance_models[j], self.max_appearance_components[j]
+                )
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index fe9eb6a..3c4627e 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -9,6 +9,30 @@ from menpofit.builder import align_shapes
 from menpofit.differentiable import DP
 
 
+def trim_components(model, max_n_components):
+    r"""
+    Permanently trims the components of a PCA model. No action is performed in
+    case all the components that the model has are needed in order to keep the
+    requested number of components or ratio of variance, e.g. because
+    previously trimmed components carried part of the requested variance.
+
+    Parameters
+    ----------
+    model : `menpo.model.PCAModel`
+        The model to trim.
+    max_n_components : `int` >= ``1`` or `float` > ``0.0`` or ``None``
+        The number of components or the ratio of variance that is kept. If
+        ``None``, then all the components are kept.
+    """
+    if max_n_components is None:
+        return
+    if isinstance(max_n_components, float):
+        model.n_active_components = model.n_components
+        if max_n_components >= model.variance_ratio():
+            return
+    model.trim_components(max_n_components)
+
+
 class _SimilarityModel(VectorizableBackedModel, MeanLinearModel):
 
     def __init__(self, components, mean):
@@ -302,8 +326,7 @@ class PDM(ModelInstance):
             aligned_shapes = align_shapes(data)
             shape_model = PCAModel(aligned_shapes)
 
-        if max_n_components is not None:
-            shape_model.trim_components(max_n_components)
+        trim_components(shape_model, max_n_components)
         super(PDM, self).__init__(shape_model)
         # Default target is the mean
         self._target = self.model.mean()
@@ -403,8 +426,7 @@ class PDM(ModelInstance):
         self.model.increment(aligned_shapes, n_samples=n_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
-        if max_n_components is not None:
-            self.model.trim_components(max_n_components)
+        trim_components(self.model, max_n_components)
         self._reset_global_transform()
         # Reset the target given the new model
         self.set_target(old_target)
@@ -698,8 +720,7 @@ class OrthoPDM(GlobalPDM):
         self.model.increment(aligned_shapes, n_samples=n_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
-        if max_n_components is not None:
-            self.model.trim_components(max_n_components)
+        trim_components(self.model, max_n_components)
         self._reset_global_transform()
         # Re-orthonormalize
         self._construct_similarity_model()
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index e96aab1..fa0ecb8 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -19,7 +19,7 @@ from menpofit.builder import (
 from menpofit.aam.algorithm.lk import LucasKanadeStandardInterface
 from menpofit.clm import CorrelationFilterExpertEnsemble
 from menpofit.clm.expert.ensemble import ConvolutionBasedExpertEnsemble
-from menpofit.modelinstance import OrthoPDM
+from menpofit.modelinstance import OrthoPDM, trim_components
 from menpofit.transform import DifferentiablePiecewiseAffine, OrthoMDTransform
 
 
@@ -292,8 +292,7 @@ class UnifiedAAMCLM(object):
 
             appearance_model = PCAModel(warped_images)
             # trim appearance model if required
-            if self.max_appearance_components[j] is not None:
-                appearance_model.trim_components(self.max_appearance_components[j])
+            trim_components(appearance_model, self.max_appearance_components[j])
             # add appearance model to the list
             self.appearance_models.append(appearance_model)
 
-- 
2.43.0


From da84b767c99b86f2cdaa9c8f8ef9df475d00505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 84/99] fix: keep the shapes of supervised descent on linear
 AAMs sparse

The estimates made while training were replaced by the dense targets of the
transforms of linear AAMs, which the next scale cannot be trained from.
---
 menpofit/aam/algorithm/sd.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/menpofit/aam/algorithm/sd.py b/menpofit/aam/algorithm/sd.py
index 61b141e..851ee94 100644
--- a/menpofit/aam/algorithm/sd.py
+++ b/menpofit/aam/algorithm/sd.py
@@ -70,6 +70,20 @@ class ParametricSupervisedDescentAlgorithm(BaseSupervisedDescentAlgorithm):
         # Vectorise it and mask it
         self.a_bar_m = a_bar.as_vector()[self.interface.i_mask]
 
+    def _train(self, images, gt_shapes, current_shapes, increment=False,
+               prefix='', verbose=False):
+        current_shapes = super(ParametricSupervisedDescentAlgorithm, self)._train(
+            images, gt_shapes, current_shapes, increment=increment,
+            prefix=prefix, verbose=verbose)
+        if hasattr(self.transform, 'sparse_target'):
+            # The targets of linear AAMs are dense, but their first points are
+            # the landmarks, which is what the next scale gets trained from
+            n_landmarks = self.transform.n_landmarks
+            for shapes in current_shapes:
+                for s in shapes:
+                    s._from_vector_inplace(s.points[:n_landmarks].ravel().copy())
+        return current_shapes
+
     def _compute_delta_x(self, gt_shapes, current_shapes):
         # This is called first - so train shape model here
         return compute_parametric_delta_x(gt_shapes, current_shapes,
-- 
2.43.0


From 9c494d7c31272dc6006779434058a6b468327bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 85/99] fix: train parametric cascades on the shapes that they
 are applied to

Fitting replaces the initial shape by its projection on the shape model before
the first cascade, whereas training extracted the features of the first cascade
from the unprojected shapes.
---
 menpofit/sdm/algorithm/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 12104b3..b8ce31d 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -417,7 +417,8 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
     r"""
     Method that, given a linear parametric model, computes the difference
     between a set of current shape parameters and the corresponding ground truth
-    shape parameters.
+    shape parameters. Note that the `current_shapes` get updated inplace to the
+    shapes of the model with those parameters.
 
     Parameters
     ----------
@@ -454,6 +455,10 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
             current_params = model.as_vector()
             delta_params[k] = c_gt_params - current_params
 
+            # The features of the first cascade have to be extracted from shapes
+            # of the model, because that is where fitting extracts them from
+            s._from_vector_inplace(model.target.as_vector().copy())
+
             k += 1
 
     return delta_params, gt_params
-- 
2.43.0


From 5e6fff1b3757f13170aa1baa307e717cc25c8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 86/99] fix: build the models of cascades anew whenever they
 are trained

Training a parametric supervised descent algorithm again replaced its regressors
but kept the shape and appearance models of the previous training data.
---
 menpofit/sdm/algorithm/base.py                 | 7 ++++++-
 menpofit/sdm/algorithm/fullyparametric.py      | 4 ++++
 menpofit/sdm/algorithm/parametricappearance.py | 3 +++
 menpofit/sdm/algorithm/parametricshape.py      | 3 +++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index b8ce31d..625ccc2 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -74,8 +74,9 @@ class BaseSupervisedDescentAlgorithm(object):
     def _train(self, images, gt_shapes, current_shapes, increment=False,
                prefix='', verbose=False):
         if not increment:
-            # Reset the regressors
+            # Reset the regressors and the models that they depend upon
             self.regressors = []
+            self._reset_models()
         elif increment and not (hasattr(self, 'regressors') and self.regressors):
             raise ValueError('Algorithm must be trained before it can be '
                              'incremented.')
@@ -119,6 +120,10 @@ class BaseSupervisedDescentAlgorithm(object):
 
         return current_shapes
 
+    def _reset_models(self):
+        # By default, there are no models that get built from the training data
+        pass
+
     def _compute_delta_x(self, gt_shapes, current_shapes):
         raise NotImplementedError()
 
diff --git a/menpofit/sdm/algorithm/fullyparametric.py b/menpofit/sdm/algorithm/fullyparametric.py
index 7a0fa30..30773f3 100644
--- a/menpofit/sdm/algorithm/fullyparametric.py
+++ b/menpofit/sdm/algorithm/fullyparametric.py
@@ -43,6 +43,10 @@ class FullyParametricSDAlgorithm(BaseSupervisedDescentAlgorithm):
         # The result class to be used by a multi-scale fitter
         return MultiScaleParametricIterativeResult
 
+    def _reset_models(self):
+        self.shape_model = None
+        self.appearance_model = None
+
     def _compute_delta_x(self, gt_shapes, current_shapes):
         # This is called first - so train shape model here
         if self.shape_model is None:
diff --git a/menpofit/sdm/algorithm/parametricappearance.py b/menpofit/sdm/algorithm/parametricappearance.py
index 6d48e81..873a6f3 100644
--- a/menpofit/sdm/algorithm/parametricappearance.py
+++ b/menpofit/sdm/algorithm/parametricappearance.py
@@ -36,6 +36,9 @@ class ParametricAppearanceSDAlgorithm(BaseSupervisedDescentAlgorithm):
         # The result class to be used by a multi-scale fitter
         return MultiScaleNonParametricIterativeResult
 
+    def _reset_models(self):
+        self.appearance_model = None
+
     def _compute_delta_x(self, gt_shapes, current_shapes):
         return compute_non_parametric_delta_x(gt_shapes, current_shapes)
 
diff --git a/menpofit/sdm/algorithm/parametricshape.py b/menpofit/sdm/algorithm/parametricshape.py
index 7b86ff4..8a7904e 100644
--- a/menpofit/sdm/algorithm/parametricshape.py
+++ b/menpofit/sdm/algorithm/parametricshape.py
@@ -36,6 +36,9 @@ class ParametricShapeSDAlgorithm(BaseSupervisedDescentAlgorithm):
         # The result class to be used by a multi-scale fitter
         return MultiScaleParametricIterativeResult
 
+    def _reset_models(self):
+        self.shape_model = None
+
     def _compute_delta_x(self, gt_shapes, current_shapes):
         # This is called first - so train shape model here
         if self.shape_model is None:
-- 
2.43.0


From 72d7f8be2b4761e2654679d47fd81f006539e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 87/99] fix: only keep downloaded fitters that are complete

An interrupted or truncated download left a partial file where the fitter was
expected, which the next attempt tried to load instead of downloading it again.
Servers that do not announce the size of the file left an empty one.
---
 menpofit/io.py | 56 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ce4c0fc..548c2ca 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import  # or menpofit.math causes trouble!
 from math import ceil
+import os
 import sys
+from uuid import uuid4
 
 try:
     from urllib2 import urlopen  # Py2
@@ -356,7 +358,8 @@ def copy_and_yield(fsrc, fdst, length=1024*1024):
 
 def download_file(url, destination, verbose=False):
     r"""
-    Download a file from a URL to a path, optionally reporting the progress
+    Download a file from a URL to a path, optionally reporting the progress.
+    The path is only written once the whole file has been received.
 
     Parameters
     ----------
@@ -370,25 +373,40 @@ def download_file(url, destination, verbose=False):
     from menpo.visualize.textutils import print_progress, bytes_str
     req = urlopen(url)
     chunk_size_bytes = 512 * 1024
+    n_bytes = req.headers['content-length']
 
-    with open(str(destination), 'wb') as fp:
-
-        # Retrieve a generator that we can keep yielding from to download the
-        # file in chunks.
-        copy_progress = copy_and_yield(req, fp, length=chunk_size_bytes)
-
-        if verbose:
-            # wrap the download object with print progress to log the status
-            n_bytes = int(req.headers['content-length'])
-            n_items = int(ceil((1.0 * n_bytes) / chunk_size_bytes))
-            prefix = 'Downloading {}'.format(bytes_str(n_bytes))
-            copy_progress = print_progress(copy_progress, n_items=n_items,
-                                           show_count=False, prefix=prefix)
-
-        for _ in copy_progress:
-            pass
-
-    req.close()
+    # Download beside the destination, so that a file only ever appears there
+    # once it is complete - no matter what interrupts the download.
+    partial = '{}.{}.part'.format(destination, uuid4().hex)
+    try:
+        with open(partial, 'wb') as fp:
+
+            # Retrieve a generator that we can keep yielding from to download
+            # the file in chunks.
+            copy_progress = copy_and_yield(req, fp, length=chunk_size_bytes)
+
+            if verbose and n_bytes is not None:
+                # wrap the download object with print progress to log the status
+                n_items = int(ceil((1.0 * int(n_bytes)) / chunk_size_bytes))
+                prefix = 'Downloading {}'.format(bytes_str(int(n_bytes)))
+                copy_progress = print_progress(
+                    copy_progress, n_items=n_items, show_count=False,
+                    prefix=prefix)
+
+            for _ in copy_progress:
+                pass
+
+        n_received = os.path.getsize(partial)
+        if n_bytes is not None and n_received != int(n_bytes):
+            raise IOError('Download of {} was interrupted after {} of {} '
+                          'bytes'.format(url, n_received, n_bytes))
+        os.replace(partial, str(destination))
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
+    finally:
+        req.close()
 
 
 def load_fitter(name):
-- 
2.43.0


From fe9756960153fdf01a89939352cb84196c1e555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 88/99] fix: wrap fitters whose results have no initial shape

The results of dlib's fitters do not, and the wrapper failed to map it.
---
 menpofit/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index 548c2ca..ab18cb5 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -223,7 +223,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
@@ -270,7 +271,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
-- 
2.43.0


From dbd56d5089de6572c68b8b736474ad105d7ac50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 89/99] fix: give the results of wrapped fitters their own
 image

They held the image of the caller, and changed with it.
---
 menpofit/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ab18cb5..c5249da 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -9,6 +9,7 @@ try:
 except ImportError:
     from urllib.request import urlopen  # Py3
 
+from menpo.image import Image
 from menpo.io import import_pickle
 
 from menpofit.base import menpofit_src_dir_path
@@ -221,7 +222,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(bounding_box),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
             if result.initial_shape is not None:
                 result._initial_shape = trans.apply(result.initial_shape)
@@ -269,7 +270,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(initial_shape),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
             if result.initial_shape is not None:
                 result._initial_shape = trans.apply(result.initial_shape)
-- 
2.43.0


From c8575c67195338c0f8b86dbccf556d1ecc3af0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 90/99] fix: build fitters from the mean of their shape models

The Jacobians that fitters precompute depended on the pose that the last fit, or
the last increment, had left the shared shape models in, so that fitters built
on a model that was used before gave different results.
---
 menpofit/aam/fitter.py             |  3 +++
 menpofit/aps/fitter.py             |  2 ++
 menpofit/atm/fitter.py             |  2 ++
 menpofit/clm/fitter.py             |  2 ++
 menpofit/modelinstance.py          | 15 +++++++++++++++
 menpofit/unified_aam_clm/fitter.py |  2 ++
 6 files changed, 26 insertions(+)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 13e636a..396e27d 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -9,6 +9,7 @@ from menpofit.fitter import (MultiScaleParametricFitter,
                              noisy_shape_from_bounding_box)
 from menpofit.sdm import SupervisedDescentFitter
 import menpofit.checks as checks
+from menpofit.modelinstance import reset_models
 from menpofit.result import MultiScaleParametricIterativeResult
 
 from .algorithm.lk import WibergInverseCompositional
@@ -150,6 +151,7 @@ class LucasKanadeAAMFitter(AAMFitter):
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
 
         # Get list of algorithm objects per scale
+        reset_models(aam.shape_models)
         interfaces = aam.build_fitter_interfaces(self._sampling)
         algorithms = [lk_algorithm_cls(interface) for interface in interfaces]
 
@@ -333,6 +335,7 @@ class SupervisedDescentAAMFitter(SupervisedDescentFitter):
             batch_size=batch_size, verbose=verbose)
 
     def _setup_algorithms(self):
+        reset_models(self.aam.shape_models)
         interfaces = self.aam.build_fitter_interfaces(self._sampling)
         self.algorithms = [self._sd_algorithm_cls[j](
                                interface, n_iterations=self.n_iterations[j])
diff --git a/menpofit/aps/fitter.py b/menpofit/aps/fitter.py
index 4e5c4db..2838d97 100644
--- a/menpofit/aps/fitter.py
+++ b/menpofit/aps/fitter.py
@@ -1,5 +1,6 @@
 from menpofit.fitter import MultiScaleParametricFitter
 import menpofit.checks as checks
+from menpofit.modelinstance import reset_models
 
 from .result import APSResult
 from .algorithm.gn import GaussNewtonBaseInterface, Inverse
@@ -149,6 +150,7 @@ class GaussNewtonAPSFitter(APSFitter):
             aps.n_scales, (float, int), 'weight', weight)
 
         # Get list of algorithm objects per scale
+        reset_models(aps.shape_models)
         algorithms = []
         for j in list(range(aps.n_scales)):
             # create the interface object
diff --git a/menpofit/atm/fitter.py b/menpofit/atm/fitter.py
index 679565b..bb4535b 100644
--- a/menpofit/atm/fitter.py
+++ b/menpofit/atm/fitter.py
@@ -1,5 +1,6 @@
 from menpofit import checks
 from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.modelinstance import reset_models
 
 from .algorithm import InverseCompositional
 
@@ -49,6 +50,7 @@ class LucasKanadeATMFitter(MultiScaleParametricFitter):
         self._sampling = checks.check_sampling(sampling, atm.n_scales)
 
         # Get list of algorithm objects per scale
+        reset_models(atm.shape_models)
         interfaces = atm.build_fitter_interfaces(self._sampling)
         algorithms = [lk_algorithm_cls(interface) for interface in interfaces]
 
diff --git a/menpofit/clm/fitter.py b/menpofit/clm/fitter.py
index c686a70..fa821fd 100644
--- a/menpofit/clm/fitter.py
+++ b/menpofit/clm/fitter.py
@@ -1,5 +1,6 @@
 from menpofit.fitter import MultiScaleParametricFitter
 from menpofit import checks
+from menpofit.modelinstance import reset_models
 
 from .algorithm import RegularisedLandmarkMeanShift
 
@@ -78,6 +79,7 @@ class GradientDescentCLMFitter(CLMFitter):
         checks.set_models_components(clm.shape_models, n_shape)
 
         # Get list of algorithm objects per scale
+        reset_models(clm.shape_models)
         algorithms = [gd_algorithm_cls(clm.expert_ensembles[i],
                                        clm.shape_models[i])
                       for i in range(clm.n_scales)]
diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 3c4627e..86a06e1 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -63,6 +63,21 @@ class _SimilarityModel(VectorizableBackedModel, MeanLinearModel):
         return str_out
 
 
+def reset_models(models):
+    r"""
+    Sets the provided models back to their mean. Fitters do so before anything
+    gets precomputed from the models, because the Jacobians of a model depend
+    on the state that the last fit left it in.
+
+    Parameters
+    ----------
+    models : `list` of :map:`PDM` or `subclass`
+        The models per scale.
+    """
+    for m in models:
+        m._from_vector_inplace(np.zeros(m.n_parameters))
+
+
 def similarity_2d_instance_model(shape):
     r"""
     Creates a `menpo.model.MeanLinearModel` that encodes the 2D similarity
diff --git a/menpofit/unified_aam_clm/fitter.py b/menpofit/unified_aam_clm/fitter.py
index d83de4e..7bb03c7 100644
--- a/menpofit/unified_aam_clm/fitter.py
+++ b/menpofit/unified_aam_clm/fitter.py
@@ -1,6 +1,7 @@
 from menpo.base import name_of_callable
 from menpofit import checks
 from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.modelinstance import reset_models
 
 from .algorithm import AlternatingRegularisedLandmarkMeanShift
 from .result import UnifiedAAMCLMResult
@@ -69,6 +70,7 @@ class UnifiedAAMCLMFitter(MultiScaleParametricFitter):
         self._sampling = checks.check_sampling(sampling, self._model.n_scales)
 
         # Get list of algorithm objects per scale
+        reset_models(self._model.shape_models)
         interfaces = unified_aam_clm.build_fitter_interfaces(self._sampling)
         algorithms = [algorithm_cls(interface,
                                     self._model.expert_ensembles[k],
-- 
2.43.0


From eb19ff2318af45a84e9eb2876d885647dd804f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 91/99] fix: sampling from scale returns a boolean mask of
 reference pixels only

---
 menpofit/aam/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 396e27d..2c068f0 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -459,9 +459,10 @@ def holistic_sampling_from_scale(aam, scale=0.35):
     modified_mask = deepcopy(reference.mask.pixels)
     modified_mask[:] = False
     modified_mask[:, new_indices[:, 0], new_indices[:, 1]] = True
+    # the mask of the scaled reference may leave the one of the reference
+    modified_mask &= reference.mask.pixels
 
-    true_positions = np.nonzero(
-        modified_mask[:, reference.mask.mask].ravel())[0]
+    true_positions = modified_mask[:, reference.mask.mask].ravel()
 
     return true_positions, BooleanImage(modified_mask[0])
 
-- 
2.43.0


From 9ab8b465dfe83c2add1b0e9f9c4ed82c6957e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 92/99] fix: number the landmarks that are drawn without an
 image

---
 menpofit/visualize/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index a3d40c4..5993fe4 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -505,6 +505,14 @@ def view_image_multiple_landmarks(
                         marker_edge_width=marker_edge_width[k],
                         marker_edge_colour=marker_edge_colour[k],
                         marker_face_colour=marker_face_colour[k],
+                        render_numbering=render_numbering,
+                        numbers_horizontal_align=numbers_horizontal_align,
+                        numbers_vertical_align=numbers_vertical_align,
+                        numbers_font_name=numbers_font_name,
+                        numbers_font_size=numbers_font_size,
+                        numbers_font_style=numbers_font_style,
+                        numbers_font_weight=numbers_font_weight,
+                        numbers_font_colour=numbers_font_colour,
                         render_axes=render_axes, axes_font_name=axes_font_name,
                         axes_font_size=axes_font_size,
                         axes_font_style=axes_font_style,
-- 
2.43.0


From 43fd077dca621a51dc4b947b3b224a6586a5539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 93/99] fix: pair the legend entries of viewed landmark groups
 with what each group draws

---
 menpofit/visualize/base.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 5993fe4..85bc3f2 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -24,6 +24,21 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
     return arg
 
 
+def _drawn_artists():
+    # the lines and markers that the current axes hold, if there are any
+    import matplotlib.pyplot as plt
+    if len(plt.gcf().get_axes()) == 0:
+        return []
+    return list(plt.gca().lines) + list(plt.gca().collections)
+
+
+def _legend_handle(previous):
+    # everything that was drawn since previous; an invisible line if nothing was
+    import matplotlib.pyplot as plt
+    drawn = tuple(a for a in _drawn_artists() if a not in previous)
+    return drawn or plt.Line2D([], [], linestyle='None')
+
+
 def view_image_multiple_landmarks(
         image, groups, with_labels=None, figure_id=None, new_figure=False,
         subplots_enabled=True, subplots_titles=None, render_image=True,
@@ -383,7 +398,9 @@ def view_image_multiple_landmarks(
                 # calculate subplots structure
                 subplots = MatplotlibSubplots()._subplot_layout(len(groups))
             # show image with landmarks
+            legend_handles = []
             for k, group in enumerate(groups):
+                previous = _drawn_artists()
                 if subplots_enabled:
                     # create subplot
                     plt.subplot(subplots[0], subplots[1], k + 1)
@@ -441,6 +458,7 @@ def view_image_multiple_landmarks(
                         interpolation=interpolation, alpha=alpha,
                         cmap_name=cmap_name, figure_size=figure_size,
                         **mask_arguments)
+                legend_handles.append(_legend_handle(previous))
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -450,7 +468,8 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(legend_handles,
+                                     [subplots_titles[g] for g in groups],
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
@@ -484,7 +503,9 @@ def view_image_multiple_landmarks(
                 # calculate subplots structure
                 subplots = MatplotlibSubplots()._subplot_layout(len(groups))
             # not image, landmarks
+            legend_handles = []
             for k, group in enumerate(groups):
+                previous = _drawn_artists()
                 if subplots_enabled:
                     # create subplot
                     plt.subplot(subplots[0], subplots[1], k + 1)
@@ -521,6 +542,7 @@ def view_image_multiple_landmarks(
                         axes_y_limits=axes_y_limits,
                         axes_x_ticks=axes_x_ticks, axes_y_ticks=axes_y_ticks,
                         figure_size=figure_size)
+                legend_handles.append(_legend_handle(previous))
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -530,7 +552,8 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(legend_handles,
+                                     [subplots_titles[g] for g in groups],
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
-- 
2.43.0


From 5c662ff89560317581b80973713b5538b932d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 94/99] fix: view any number of landmark groups in subplots

---
 menpofit/visualize/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 85bc3f2..f064e95 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -396,7 +396,8 @@ def view_image_multiple_landmarks(
             # there are selected landmark groups and they will be displayed
             if subplots_enabled:
                 # calculate subplots structure
-                subplots = MatplotlibSubplots()._subplot_layout(len(groups))
+                subplots = [int(n) for n in MatplotlibSubplots().
+                            _subplot_layout(len(groups))]
             # show image with landmarks
             legend_handles = []
             for k, group in enumerate(groups):
@@ -501,7 +502,8 @@ def view_image_multiple_landmarks(
             # there are selected landmark groups and they will be displayed
             if subplots_enabled:
                 # calculate subplots structure
-                subplots = MatplotlibSubplots()._subplot_layout(len(groups))
+                subplots = [int(n) for n in MatplotlibSubplots().
+                            _subplot_layout(len(groups))]
             # not image, landmarks
             legend_handles = []
             for k, group in enumerate(groups):
-- 
2.43.0


From 1c8c62e3c8718d77ecd0843037c6eee9a03e829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 95/99] fix: describe the cascade depth that regression trees
 are trained with

---
 menpofit/dlib/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 67cf3c3..332f21f 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -493,7 +493,7 @@ class DlibERT(MultiScaleNonParametricFitter):
             scales_info.append(
                 lvl_str_tmplt.format(
                     s,
-                    self._dlib_options_templates[k].cascade_depth,
+                    self.n_iterations[k],
                     self._dlib_options_templates[k].tree_depth,
                     self._dlib_options_templates[k].num_trees_per_cascade_level,
                     self._dlib_options_templates[k].nu,
-- 
2.43.0


From b6af54c79b1113aec5f3c81c2096cea3ccc6f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 96/99] fix: keep the channels of frequency filter images in
 order

---
 menpofit/clm/expert/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index edba8a4..83f4f67 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -178,7 +178,9 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         for fft_padded_filter in self.fft_padded_filters:
             spatial_filter = np.real(ifft2(fft_padded_filter))
             spatial_filter = crop(spatial_filter, self.patch_shape)[:, ::-1, ::-1]
-            frequency_filter = np.abs(fftshift(fft2(spatial_filter)))
+            frequency_filter = np.abs(
+                fftshift(fft2(spatial_filter), axes=(-2, -1))
+            )
             filter_images.append(Image(frequency_filter))
         return filter_images
 
-- 
2.43.0


From 879d7771245a770b830022a5356484453eddcf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:46 +0000
Subject: [PATCH 97/99] fix: differentiate thin plate splines with coincident
 landmarks

---
 menpofit/transform/thinsplatesplines.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index 201b706..0a1a6ad 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -89,16 +89,13 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
         k = np.hstack([k_points, np.ones([n_points, 1]), points])
 
         # (n_centres+3, n_centres+3)
-        try:
-            inv_L = np.linalg.inv(self.l)
-        except np.linalg.LinAlgError:
-            # If two points are coincident, or very close to being so, then the
-            # matrix is rank deficient and thus not-invertible. Therefore,
-            # only take the inverse on the full-rank set of indices.
-            _u, _s, _v = np.linalg.svd(self.l)
-            keep = _s.shape[0] - sum(_s < self.min_singular_val)
-            inv_L = _u[:, :keep].dot(1.0 / _s[:keep, None] * _v[:keep, :])
-
+        # If two points are coincident, or very close to being so, then the
+        # matrix is rank deficient and thus not-invertible (though rounding may
+        # hide it from a plain inversion). Therefore, only take the inverse on
+        # the full-rank set of indices, as it is done for the coefficients.
+        _u, _s, _v = np.linalg.svd(self.l)
+        keep = _s.shape[0] - sum(_s < self.min_singular_val)
+        inv_L = _u[:, :keep].dot(1.0 / _s[:keep, None] * _v[:keep, :])
 
         # Taking the derivative of L for changes in l must yield an x,y change
         # for each centre.
-- 
2.43.0


From 0c0bc38f9ba848bd496e2023fe7a5b3bfabc4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:36 +0000
Subject: [PATCH 98/99] fix: implement the pseudoinverse of model driven
 transforms

---
 menpofit/transform/modeldriven.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 0923c22..fd8cccb 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -186,8 +186,14 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         """
         return False
 
-    def _build_pseudoinverse(self):
-        return self.from_vector(-self.as_vector())
+    def pseudoinverse(self):
+        r"""
+        The pseudoinverse of the transform, i.e. the transform that results from
+        negating the transform's parameters.
+
+        :type: ``type(self)``
+        """
+        return self.from_vector(self.pseudoinverse_vector(self.as_vector()))
 
     def pseudoinverse_vector(self, vector):
         r"""
-- 
2.43.0


From 8dba08093c46744d5f4157df76f6592b816d9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 99/99] fix: view_image_multiple_landmarks ignored with_labels
 when the image is not rendered

---
 menpofit/visualize/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index f064e95..49e40aa 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -518,7 +518,10 @@ def view_image_multiple_landmarks(
                                   fontstyle=legend_font_style,
                                   fontweight=legend_font_weight,
                                   fontsize=legend_font_size)
-                image.landmarks[group].view(
+                landmarks = image.landmarks[group]
+                if with_labels[k] is not None:
+                    landmarks = landmarks.with_labels(with_labels[k])
+                landmarks.view(
                         image_view=image_view, render_lines=render_lines[k],
                         line_style=line_style[k], line_width=line_width[k],
                         line_colour=line_colour[k],
-- 
2.43.0

