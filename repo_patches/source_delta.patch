From f5ca304a2e29205708337453d6ba235ecd7f9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/37] fix: quaternion product raised TypeError on every input

---
 gconv/geometry/groups/so3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..176faaa 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -186,7 +186,7 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     """
     q = q1.new_empty(q1.shape)
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    cross = torch.cross(q1[..., 1:], q2[..., 1:], dim=-1)
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +194,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From 8788438dce3b929e85d7882ff67ce58aa4489ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/37] fix: matrix to quaternion conversion wrong for batch
 shapes other than (N, 3, 3)

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 176faaa..93b847d 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -263,7 +263,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
-- 
2.43.0


From 95d1b46ff3a0fc9fca33785f2048a8e9690c5116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 03/37] fix: matrix to Euler conversion failed for batch shapes
 other than (N, 3, 3)

---
 gconv/geometry/groups/so3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 93b847d..c14023d 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -316,13 +316,13 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
+    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
@@ -343,7 +343,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
     g[adjust_and_safe, 0] -= pi
     g[adjust_and_safe, 1] *= -1
-- 
2.43.0


From 0e4ae78a044c7e5445ce0227abff4deae30c3318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 04/37] fix: matrix to Euler conversion returned wrong
 rotations near the gimbal lock

---
 gconv/geometry/groups/so3.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index c14023d..fafc034 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -315,10 +315,11 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     res = torch.matmul(c, r)
     matrix_trans = torch.matmul(res, c.T)
 
-    # step 4
-    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
-
-    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
+    # step 4, arccos is too inaccurate close to the gimbal lock
+    g[..., 1] = torch.atan2(
+        torch.hypot(matrix_trans[..., 0, 2], matrix_trans[..., 1, 2]),
+        matrix_trans[..., 2, 2],
+    )
 
     # step 5, 6
     safe1 = torch.abs(g[..., 1]) >= eps
-- 
2.43.0


From b2e88e7486a7818106fe09f3079f8771f64252c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 05/37] fix: gimbal lock warning missing unless every matrix of
 the batch is locked

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index fafc034..71935de 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -353,7 +353,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     g[g < -pi] += 2 * pi
     g[g >= pi] -= 2 * pi
 
-    if not no_warn and not torch.any(safe):
+    if not no_warn and not torch.all(safe):
         warnings.warn(
             "Gimbal lock detected. Setting third angle to zero "
             "since it is not possible to uniquely determine "
-- 
2.43.0


From 8945db7d1764b773ba1852161b9278d099bb068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 06/37] fix: random O3 elements could not be drawn for tuple
 sizes

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..2362fb4 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand_like(R[..., :1]) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From c1c1e0d2b83d33eaf53273b2026ca8e78c4cc8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/37] fix: SO2 nearest neighbour distance counted each
 element as its own neighbour

---
 gconv/geometry/groups/so2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..622590b 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,6 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    distances = geodesic_distance(grid[:, None], grid)
+
+    return distances.fill_diagonal_(math.inf).sort()[0][:, :1].flatten()
-- 
2.43.0


From d83aa92b8d85538f5e2642b657b98362a7463d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 08/37] fix: nearest neighbour distance failed on grids of a
 single rotation

---
 gconv/geometry/groups/so3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 71935de..b85a0d8 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -668,7 +668,9 @@ def nearest_neighbour_distance(q: Tensor) -> Tensor:
     if q.ndim == 3:
         q = matrix_to_quat(q)
 
-    return geodesic_distance(q[:, None], q).sort()[0][:, 1]
+    distances = geodesic_distance(q[:, None], q)
+
+    return distances.fill_diagonal_(torch.inf).sort()[0][:, :1].flatten()
 
 
 def grid_sample(
-- 
2.43.0


From 5a8c1f9ee6a7217602c771fbb19b6c7bda5e7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/37] fix: default E3 group sampling width was not the
 density of the rotations

---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..bba4ac0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From e077e5382171e680b7d5d0c375767803ae66e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 10/37] fix: GWrap could not be constructed

---
 gconv/gnn/modules/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..d62ff01 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,8 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
+
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From b5c521e921d9631b69a06c1b13d7170a9263ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 11/37] fix: spatial pooling dropped the spatial dimensions and
 raised

---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From 34bb4030832dc10436a8c75c2ce389dc421473bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/37] fix: max pooling over the group returned a (values,
 indices) pair instead of a tensor

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..f8192b1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2).values
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True).values
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From cf89f8a9311684d01378b466179773485d9699d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 13/37] fix: sampled subgroup weights were scrambled for input
 and output grids of different sizes

---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..93202f9 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From 9fd3fe52fc6812953fddcfec45c799a7d78e26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 14/37] fix: separable convs applied stride and padding twice

---
 gconv/gnn/modules/gconv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..8940aa6 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -103,10 +103,12 @@ class GroupConvNd(nn.Module):
 
         if conv_mode == "2d":
             self._conv_forward = self._conv2d_forward
+            self._conv_pointwise = F.conv2d
             bias_shape = (1, 1, 1)
             self.padding = _pair(padding) if isinstance(self.padding, int) else padding
         elif conv_mode == "3d":
             self._conv_forward = self._conv3d_forward
+            self._conv_pointwise = F.conv3d
             bias_shape = (1, 1, 1, 1)
             self.padding = (
                 _triple(padding) if isinstance(self.padding, int) else padding
@@ -297,15 +299,16 @@ class GSeparableConvNd(GroupConvNd):
 
         weight_H, weight = self.kernel(in_H, out_H)
 
-        # subgroup conv
-        input = self._conv_forward(
+        # subgroup conv, pointwise in Rn: stride, padding, and dilation
+        # only apply to the spatial conv
+        input = self._conv_pointwise(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From 13f46948e4951dc771aa0c4d6ee714d07bab0f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 15/37] fix: SE2 kernels ignored mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..517019a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -42,7 +42,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -117,7 +117,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -190,7 +190,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From bef95302486796989974ddaf1abc4368bb08d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 16/37] fix: uniform grid of a single rotation matrix lacked
 the grid dimension

---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..daa1b9a 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -423,7 +423,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
-- 
2.43.0


From 2b6a06fab84fa9651ef912068c15fcd876637d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 17/37] fix: uniform grids shared memory with the grid cache

---
 gconv/geometry/groups/so3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index b85a0d8..d498c00 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -575,7 +575,9 @@ def uniform_grid(
     if size == 0:
         return torch.Tensor([], device=device)
     try:
-        return _grid_cache.load_grid(size, "so3", parameterization)
+        grid = _grid_cache.load_grid(size, "so3", parameterization)
+        # callers own the returned grid, so never hand out the cached tensor
+        return grid.to(device=device, copy=True)
     except KeyError:
         pass
 
-- 
2.43.0


From 28eae1572c3228ccd7193bee83c0882e8de9bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 18/37] fix: cache_grid stored Euler angles regardless of the
 parameterization

---
 gconv/geometry/groups/_grid_cache.py | 3 ++-
 gconv/geometry/groups/so3.py         | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index daa1b9a..71538bb 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,7 +19,8 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    grids = _grid_cache[grid_type.lower()].setdefault(parameterization.lower(), {})
+    grids[grid.shape[0]] = grid
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index d498c00..b61218d 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -607,10 +607,12 @@ def uniform_grid(
         in_place=True,
     )
 
+    grid = param_fn(grid)
+
     if cache_grid:
-        _grid_cache.save_grid(grid, "so3", parameterization)
+        _grid_cache.save_grid(grid.clone(), "so3", parameterization)
 
-    return param_fn(grid)
+    return grid
 
 
 def quaternion_log(q: Tensor) -> Tensor:
-- 
2.43.0


From 5bfb418cdec6646ee41c9861bc1eee4363c7401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 19/37] fix: set_alpha_as_neg_gamma raised and did not negate
 gamma

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..b0b7f59 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From 6d9c6cbaf7397158c52a5600546f0117e8e2f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 20/37] fix: kernels of spatial size 1 were masked out entirely

---
 gconv/gnn/functional/grid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..71e83c2 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -18,6 +18,9 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    if size == 1:
+        # the only coordinate is the origin, not the corner
+        x = torch.zeros_like(x)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -36,6 +39,9 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    if size == 1:
+        # the only coordinate is the origin, not the corner
+        x = torch.zeros_like(x)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From 4cf28419b7a6cba1045c0fe6ec4f3fd326957a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 21/37] fix: kernels of reflections changed sign, breaking E3
 equivariance

---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93202f9..e248a81 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -190,7 +190,7 @@ class GLiftingKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
 
@@ -300,7 +300,7 @@ class GSeparableKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight_H, weight
 
@@ -479,6 +479,6 @@ class GKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
-- 
2.43.0


From b46f1307f99520d1661c4c3c5626409a05ade559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 22/37] fix: permuted output grids failed for anything but
 float32

---
 gconv/gnn/modules/gconv_en/gconv_e3.py   | 12 +++++++++---
 gconv/gnn/modules/gconv_sen/gconv_se3.py |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 5f708fa..48ef2a2 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -89,7 +89,9 @@ class GLiftingConvE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o3.left_apply_O3(o3.random_grid(1, device=input.device), H)
+            H = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).type_as(H), H
+            )
 
         return super().forward(input, H)
 
@@ -187,7 +189,9 @@ class GSeparableConvE3(GSeparableConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).type_as(H_out), H_out
+            )
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +289,8 @@ class GConvE3(GConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).type_as(H_out), H_out
+            )
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index b104c7c..49cbd40 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -84,7 +84,9 @@ class GLiftingConvSE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device), H)
+            H = so3.left_apply_matrix(
+                so3.random_matrix(1, device=input.device).type_as(H), H
+            )
 
         return super().forward(input, H)
 
@@ -178,7 +180,7 @@ class GSeparableConvSE3(GSeparableConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).type_as(out_H), out_H
             )
 
         return super().forward(input, in_H, out_H)
@@ -273,7 +275,7 @@ class GConvSE3(GConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).type_as(out_H), out_H
             )
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From 7e4731b06c6d78257c1eff215d8f98bc9ba5e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 23/37] fix: E2 and E3 kernels ignored the subgroup sizes of a
 given grid_H

---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 9 +++++++++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..9076980 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -48,6 +48,9 @@ class GLiftingKernelE2(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE2(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE2(GKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index bba4ac0..b79f8b0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -48,6 +48,9 @@ class GLiftingKernelE3(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE3(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE3(GKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-- 
2.43.0


From bf574d1ca29eabcb7af55ecd7298014ebc6314cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 24/37] fix: repulsion, and so creating uniform grids, failed
 under no_grad

---
 gconv/geometry/repulsion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 50989c2..f43c6ea 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -27,6 +27,7 @@ def columb_energy(d: Tensor, k: int = 2) -> Tensor:
     return d ** (-k)
 
 
+@torch.enable_grad()
 def repulse(
     grid: Tensor,
     steps: int = 200,
-- 
2.43.0


From 9d293cb3d4c7cd95f926e984f592ce2c5f3716b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 25/37] fix: logarithm of rotations was wrong for angles close
 to pi

---
 gconv/geometry/groups/so3.py | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index b61218d..1a05ff0 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -466,34 +466,17 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     Returns:
         - Tensor of shape (..., 3).
     """
-    # clamping to prevent numerical instabilities
-    theta = torch.acos(
-        torch.clamp(
-            ((R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2]) - 1) / 2, -1 + eps, 1 - eps
-        )
-    )
-
-    theta_sin_inv = 0.5 * theta / torch.sin(theta)
-
-    c1 = theta_sin_inv * (R[..., 2, 1] - R[..., 1, 2])
-    c2 = theta_sin_inv * (R[..., 0, 2] - R[..., 2, 0])
-    c3 = theta_sin_inv * (R[..., 1, 0] - R[..., 0, 1])
-
-    mask = theta == 0.0
-
-    c1[mask] = 0.5 * R[mask, 2, 1] - R[mask, 1, 2]
-    c2[mask] = 0.5 * R[mask, 0, 2] - R[mask, 2, 0]
-    c3[mask] = 0.5 * R[mask, 1, 0] - R[mask, 0, 1]
-
-    mask = theta == pi
+    # the quaternion stays accurate up to and including angles of pi
+    q = matrix_to_quat(R)
+    q = torch.where(q[..., :1] < 0, -q, q)
 
-    c1[mask] = pi
-    c2[mask] = 0.0
-    c3[mask] = 0.0
+    v_norm = torch.linalg.norm(q[..., 1:], dim=-1, keepdim=True)
+    theta = 2 * torch.atan2(v_norm, q[..., :1])
 
-    c = torch.stack((c1, c2, c3), dim=-1)
+    # theta / v_norm goes to 2 for small angles
+    scale = torch.where(v_norm > eps, theta / v_norm.clamp(min=eps), 2.0)
 
-    return c
+    return scale * q[..., 1:]
 
 
 def random_quat(shape: tuple[int] | int, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From aefbde2db880077937d1e8c0412d5a48b3db5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 26/37] fix: a single SO2 angle could not be converted to a
 matrix

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index 622590b..9b6515e 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0


From adebb66d9c79ae3dea8b489ae93c09beb9c3b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 27/37] fix: empty uniform grids lacked the shape of their
 parameterization

---
 gconv/geometry/groups/so3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 1a05ff0..facf767 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -555,8 +555,6 @@ def uniform_grid(
     Returns:
         - Tensor containing uniform grid on SO3.
     """
-    if size == 0:
-        return torch.Tensor([], device=device)
     try:
         grid = _grid_cache.load_grid(size, "so3", parameterization)
         # callers own the returned grid, so never hand out the cached tensor
@@ -574,6 +572,9 @@ def uniform_grid(
     else:
         raise ValueError(f"Parameterization must be in {_PARAMETERIZATION}.")
 
+    if size == 0:
+        return param_fn(torch.empty(0, 3, device=device))
+
     step_size = step_size if step_size is not None else size ** (1 / 3)
 
     grid = random_euler(size, device=device)
-- 
2.43.0


From 899c0b268bc57365de1c989ff2bfdd486f9fa103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 28/37] fix: batch and instance norms failed on non-contiguous
 features

---
 gconv/gnn/modules/normalization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/normalization.py b/gconv/gnn/modules/normalization.py
index fb514ea..c890480 100644
--- a/gconv/gnn/modules/normalization.py
+++ b/gconv/gnn/modules/normalization.py
@@ -6,13 +6,13 @@ from torch import Tensor
 class GBatchNorm2d(nn.BatchNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GBatchNorm3d(nn.BatchNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GLayerNorm(nn.LayerNorm):
@@ -23,10 +23,10 @@ class GLayerNorm(nn.LayerNorm):
 class GInstanceNorm2d(nn.InstanceNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GInstanceNorm3d(nn.InstanceNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
-- 
2.43.0


From 050005576f63327651f4ae604dbf453eba8d63ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 29/37] fix: kernels shared the memory of a given reference
 grid

Two layers built on the same grid tensor (and the caller's tensor itself)
aliased one buffer: loading a state dictionary into one layer, or editing the
tensor, silently changed the other layer.
---
 gconv/gnn/kernels/kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index e248a81..d0d308e 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -99,10 +99,11 @@ class GroupKernel(nn.Module):
 
         self.groups = groups
 
-        self.register_buffer("grid_H", grid_H)
-        self.register_buffer("grid_Rn", grid_Rn)
+        # kernels own their buffers, so never share the given tensors
+        self.register_buffer("grid_H", None if grid_H is None else grid_H.clone())
+        self.register_buffer("grid_Rn", None if grid_Rn is None else grid_Rn.clone())
 
-        self.register_buffer("mask", mask)
+        self.register_buffer("mask", None if mask is None else mask.clone())
 
         self.det_H = det_H
         self.inverse_H = inverse_H
-- 
2.43.0


From f7f69a0d2b859eac802e611b21e4131b82b5fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 30/37] fix: spherical mask of size 2 removed the whole kernel

All positions of a kernel of size 2 are corners, outside the ball of radius
1.1, so that masked layers (the default) of kernel size 2 returned zeros. The
ball now always holds the innermost positions.
---
 gconv/gnn/functional/mask.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/functional/mask.py b/gconv/gnn/functional/mask.py
index ca3515f..dbe3dba 100644
--- a/gconv/gnn/functional/mask.py
+++ b/gconv/gnn/functional/mask.py
@@ -4,6 +4,14 @@ from .grid import create_grid_R3, create_grid_R2
 from torch import Tensor
 
 
+def _radius(norm: Tensor) -> float:
+    """
+    Returns the radius of the ball, which at least holds the innermost
+    positions: those of a kernel of size 2 all lie at its corners.
+    """
+    return max(1.1, 1.1 * norm.min().item()) if norm.numel() else 1.1
+
+
 def create_spherical_mask_R3(size: int, device: str = None) -> Tensor:
     """
     Creates spherical mask of size (size, size, size).
@@ -17,7 +25,9 @@ def create_spherical_mask_R3(size: int, device: str = None) -> Tensor:
     """
     grid = create_grid_R3(size).to(device)
 
-    return (torch.linalg.norm(grid, dim=-1) < 1.1).float()
+    norm = torch.linalg.norm(grid, dim=-1)
+
+    return (norm < _radius(norm)).float()
 
 
 def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
@@ -33,4 +43,6 @@ def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
     """
     grid = create_grid_R2(size).to(device)
 
-    return (torch.linalg.norm(grid, dim=-1) < 1.1).float()
+    norm = torch.linalg.norm(grid, dim=-1)
+
+    return (norm < _radius(norm)).float()
-- 
2.43.0


From 79276bb5ef9e03fc7fb68c32331609fc2a940f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 31/37] fix: spherical masks of size 21 and 41 were not
 symmetric

Positions exactly on the sphere of radius 1.1 were kept or dropped by the
rounding of their norm, which depends on the order of the components.
---
 gconv/gnn/functional/mask.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/functional/mask.py b/gconv/gnn/functional/mask.py
index dbe3dba..8d6a9ee 100644
--- a/gconv/gnn/functional/mask.py
+++ b/gconv/gnn/functional/mask.py
@@ -27,7 +27,8 @@ def create_spherical_mask_R3(size: int, device: str = None) -> Tensor:
 
     norm = torch.linalg.norm(grid, dim=-1)
 
-    return (norm < _radius(norm)).float()
+    # positions on the sphere are dropped, however their norm is rounded
+    return (norm < _radius(norm) - 1e-6).float()
 
 
 def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
@@ -45,4 +46,5 @@ def create_spherical_mask_R2(size: int, device: str = None) -> Tensor:
 
     norm = torch.linalg.norm(grid, dim=-1)
 
-    return (norm < _radius(norm)).float()
+    # positions on the sphere are dropped, however their norm is rounded
+    return (norm < _radius(norm) - 1e-6).float()
-- 
2.43.0


From fe221ddcc739bb5a5955a5ef40fb1112e7ab1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 32/37] fix: group products of any memory layout were rejected
 by kernels

A user-defined left_apply_to_H may return a non-contiguous tensor, e.g. the
result of an einsum or a permuted view, for which .view fails.
---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index d0d308e..1dcf176 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -269,7 +269,7 @@ class GSeparableKernel(GroupKernel):
         # sample SO3
         weight_H = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight_H.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
@@ -359,7 +359,7 @@ class GSubgroupKernel(GroupKernel):
         # sample SO3
         weight = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
@@ -448,7 +448,7 @@ class GKernel(GroupKernel):
 
         # sample SO3
         weight = self.sample_H(
-            H_product_H.view(-1, *H_dims),
+            H_product_H.reshape(-1, *H_dims),
             self.weight.reshape(self._group_kernel_dim, -1),
             self.grid_H,
             **self.sample_H_kwargs,
-- 
2.43.0


From 663a69fbdde8aa18066d957c06ab8c460a275995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 33/37] fix: named finite groups could only be created on the
 CPU

---
 gconv/geometry/groups/so3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index facf767..87ee981 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -722,7 +722,7 @@ def identity(device: Optional[str] = None) -> Tensor:
     Returns:
        - Tensor containing group elements.
     """
-    return torch.Tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
+    return torch.tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
 
 
 def klein_group(device: Optional[str] = None) -> Tensor:
@@ -735,7 +735,7 @@ def klein_group(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [1.0, 0.0, 0.0, 0.0],
             [0.0, 0.0, 0.0, 1.0],
@@ -756,7 +756,7 @@ def tetrahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -785,7 +785,7 @@ def octahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -826,7 +826,7 @@ def icosahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
-- 
2.43.0


From 08e261cddfa6729b70c947655f4603c43a8d8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 34/37] fix: cyclic groups ignored the device

---
 gconv/geometry/groups/so3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 87ee981..fc4bcd9 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -904,7 +904,7 @@ def cyclic_x(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
@@ -918,7 +918,7 @@ def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
@@ -932,7 +932,7 @@ def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic(n: int, axis: str, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 37af69285de2f29363cbbbbc4e4d8195e01faaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 35/37] fix: random O2 elements could only be drawn on the CPU

---
 gconv/geometry/groups/o2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e10a908..b4dc9ba 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -54,7 +54,7 @@ def random_grid(size: int, device: str | None = None) -> Tensor:
     """
     angles = so2.random_grid(size, device=device)
 
-    coeffs = (2 * (torch.rand(size, 1) > 0.5)) - 1
+    coeffs = (2 * (torch.rand_like(angles) > 0.5)) - 1
 
     return torch.cat((coeffs, angles), dim=-1)
 
-- 
2.43.0


From 7c4e1d000c1c63fd0403b92e5ce0846bb8429b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 36/37] fix: reject empty and negative int group kernel sizes
 like the tuple ones

---
 gconv/gnn/modules/gconv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 8940aa6..a407710 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -55,9 +55,13 @@ class GroupConvNd(nn.Module):
         bias: bool = False,
     ) -> None:
         super().__init__()
-        if isinstance(group_kernel_size, tuple) and (
-            any(i < 0 for i in group_kernel_size) or sum(group_kernel_size) <= 0
-        ):
+        # a given grid_H overwrites an int, so then the kernel knows the size
+        group_sizes = (
+            group_kernel_size
+            if isinstance(group_kernel_size, tuple)
+            else kernel.group_kernel_size
+        )
+        if any(i < 0 for i in group_sizes) or sum(group_sizes) <= 0:
             raise ValueError("group_kernel_size must contain positive integers")
         if groups <= 0:
             raise ValueError("groups must be a positive integer")
-- 
2.43.0


From 6b3cc3e6050c37a10fe582015289ef9df6039e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:13 +0000
Subject: [PATCH 37/37] fix: gradients of the logarithm of real quaternions
 were not finite

---
 gconv/geometry/groups/so3.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index fc4bcd9..828b00e 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -613,12 +613,15 @@ def quaternion_log(q: Tensor) -> Tensor:
         - Tensor of shape `(N, 4)`.
     """
     q_norm = torch.linalg.norm(q, dim=-1, keepdim=True)
-
-    inverse_v_norm = 1 / torch.linalg.norm(q[:, 1:], dim=-1, keepdim=True)
-    inverse_v_norm[inverse_v_norm == torch.inf] = 0
+    v_norm = torch.linalg.norm(q[:, 1:], dim=-1, keepdim=True)
+    is_real = v_norm == 0
 
     log_q_norm = torch.log(q_norm)
-    vector_part = (inverse_v_norm * torch.acos(q[:, 0].view(-1, 1) / q_norm)) * q[:, 1:]
+
+    # angle / v_norm goes to 1 / q_norm for real quaternions
+    angle = torch.atan2(v_norm, q[:, :1])
+    scale = torch.where(is_real, 1 / q_norm, angle / v_norm.masked_fill(is_real, 1))
+    vector_part = scale * q[:, 1:]
 
     return torch.hstack((log_q_norm, vector_part))
 
-- 
2.43.0

