From e1e7835aad4c5bf41d7df2d27b162d7575145979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 001/133] fix: om2qu axis signs at 180 degree rotations

The signs of the vector part were copied from the antisymmetric part of
the matrix, which vanishes at 180 degrees, so mixed-sign axes came out as a
different rotation.
---
 ebsdtorch/s2_and_so3/orientations.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..d88e54d 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -121,13 +121,12 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
-    qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
+    # the branches give the conjugate: conjugate back (up to an overall sign)
+    qu[..., 0] = -qu[..., 0]
 
-    return qu
+    # make the real part non-negative. The axis signs cannot be taken from the
+    # antisymmetric part of the matrix: it vanishes for rotations by 180 degrees
+    return torch.where(qu[..., 0:1] < 0, -qu, qu)
 
 
 @torch.jit.script
-- 
2.43.0


From a4838e8a59b9fda401be2a980e620b7f45b119bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 002/133] fix: om2ax at 180 degrees, at the identity and for
 any batch shape

The axis was read from the antisymmetric part of the matrix (zero at 180
degrees and at the identity, giving NaN) and only 1-D batches worked.
---
 ebsdtorch/s2_and_so3/orientations.py | 33 ++++++++++------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index d88e54d..4f93e40 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -132,7 +132,7 @@ def om2qu(matrix: Tensor) -> Tensor:
 @torch.jit.script
 def om2ax(matrix: Tensor) -> Tensor:
     """
-    Convert rotations given as rotation matrices to quaternions.
+    Convert rotations given as rotation matrices to axis-angle representation.
 
     Args:
         matrix: Rotation matrices as tensor of shape (..., 3, 3).
@@ -149,29 +149,18 @@ def om2ax(matrix: Tensor) -> Tensor:
     # set the output with the same batch dimensions as the input
     axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
 
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
+    # the antisymmetric part of the matrix vanishes at the identity and at 180 degrees
+    # so go through the quaternion (which has a non-negative real part)
+    qu = om2qu(matrix)
+    vector_norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    axis[..., :3] = qu[..., 1:] / vector_norm
+    axis[..., 3:4] = 2.0 * torch.atan2(vector_norm, qu[..., 0:1])
 
-    # set the angle
-    axis[..., 3] = theta
+    # the identity has no axis: use the convention of the other conversions
+    is_identity = vector_norm.squeeze(-1) == 0
+    axis[is_identity] = torch.tensor([0, 0, 1, 0], dtype=axis.dtype, device=axis.device)
 
-    return axis.view(batch_dim + (4,))
+    return axis
 
 
 @torch.jit.script
-- 
2.43.0


From 635872ce17c6f1f34223ae12d10f3fec177dde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 003/133] fix: ho2ax_newton axis was not a unit vector

It was divided by the square root of the homochoric norm.
---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 4f93e40..cc2fe58 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -649,7 +649,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
     return ax
-- 
2.43.0


From 2b4b7d567cdaf180b1b80b0388782b4b0e944a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 004/133] fix: orientation conversions accept any leading batch
 shape

They are documented for tensors of shape (..., k) but indexed with masks (or
squeezed) in a way that only works for one leading dimension, and for ax2om
only when it is larger than one.
---
 ebsdtorch/s2_and_so3/orientations.py | 60 ++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index cc2fe58..5b201ec 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -71,6 +71,7 @@ def om2qu(matrix: Tensor) -> Tensor:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
     batch_dim = matrix.shape[:-2]
+    matrix = matrix.reshape(-1, 3, 3)
 
     m00 = matrix[..., 0, 0]
     m11 = matrix[..., 1, 1]
@@ -99,7 +100,7 @@ def om2qu(matrix: Tensor) -> Tensor:
     branch_4_t = 1 + m00[branch_4] + m11[branch_4] + m22[branch_4]
     branch_4_t_rsqrt = 0.5 * torch.rsqrt(branch_4_t)
 
-    qu = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
+    qu = torch.empty((matrix.shape[0], 4), dtype=matrix.dtype, device=matrix.device)
 
     qu[branch_1, 1] = branch_1_t * branch_1_t_rsqrt
     qu[branch_1, 2] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
@@ -126,7 +127,7 @@ def om2qu(matrix: Tensor) -> Tensor:
 
     # make the real part non-negative. The axis signs cannot be taken from the
     # antisymmetric part of the matrix: it vanishes for rotations by 180 degrees
-    return torch.where(qu[..., 0:1] < 0, -qu, qu)
+    return torch.where(qu[..., 0:1] < 0, -qu, qu).view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -145,9 +146,10 @@ def om2ax(matrix: Tensor) -> Tensor:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
     batch_dim = matrix.shape[:-2]
+    matrix = matrix.reshape(-1, 3, 3)
 
-    # set the output with the same batch dimensions as the input
-    axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
+    # set the output
+    axis = torch.empty((matrix.shape[0], 4), dtype=matrix.dtype, device=matrix.device)
 
     # the antisymmetric part of the matrix vanishes at the identity and at 180 degrees
     # so go through the quaternion (which has a non-negative real part)
@@ -160,7 +162,7 @@ def om2ax(matrix: Tensor) -> Tensor:
     is_identity = vector_norm.squeeze(-1) == 0
     axis[is_identity] = torch.tensor([0, 0, 1, 0], dtype=axis.dtype, device=axis.device)
 
-    return axis
+    return axis.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -178,7 +180,8 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
+    axis_angle = axis_angle.reshape(-1, 4)
+    data_n = axis_angle.shape[0]
 
     # set the output
     matrices = torch.empty(
@@ -199,7 +202,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = (theta > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
@@ -290,6 +293,9 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
         Homochoric vectors as tensor of shape (..., 3).
     """
 
+    batch_dim = cu.shape[:-1]
+    cu = cu.reshape(-1, 3)
+
     # Sort components
     indices = torch.argsort(torch.abs(cu), dim=-1, descending=False)
     sorted = torch.gather(cu, -1, indices)
@@ -334,7 +340,7 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
     # copy the sign of the original cubochoric vector
     ho.copysign_(cu)
 
-    return ho
+    return ho.view(batch_dim + (3,))
 
 
 @torch.jit.script
@@ -350,6 +356,9 @@ def ho2cu(ho: Tensor) -> Tensor:
 
     """
 
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
+
     # inverse steps in reverse order of cu2ho
     # start with an argsort on the magnitudes
     indices = torch.argsort(torch.abs(ho), dim=-1, descending=False)
@@ -401,7 +410,7 @@ def ho2cu(ho: Tensor) -> Tensor:
     # replace any nans with 0
     cu[torch.isnan(cu)] = 0
 
-    return cu
+    return cu.view(batch_dim + (3,))
 
 
 @torch.jit.script
@@ -425,6 +434,9 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     cosine of the half rotation angle.
 
     """
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
+
     if ho.dtype == torch.float32 or ho.dtype == torch.float16:
         fit_parameters = torch.tensor(
             [
@@ -501,7 +513,7 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     # set the identity rotation
     ax[rot_is_identity] = 0
     ax[rot_is_identity, ..., 2] = 1.0
-    return ax
+    return ax.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -525,6 +537,9 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
     f(w) = [(3/4) * (w - sin(w))]^(1/3) -> no inverse -> polynomial fit it
 
     """
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
+
     if coeffs == "kikuchipy":
         fit_parameters = torch.tensor(
             [
@@ -604,7 +619,7 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
         2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0)),
         0,
     )
-    return ax
+    return ax.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -623,6 +638,9 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
 
     """
 
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
+
     # initial guess for ang given h
     h = torch.norm(ho, dim=-1)
 
@@ -652,7 +670,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
     ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
-    return ax
+    return ax.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -699,6 +717,8 @@ def ro2ax(ro: Tensor) -> Tensor:
     Returns:
         torch.Tensor: shape (..., 4) axis-angles (x, y, z, angle).
     """
+    batch_dim = ro.shape[:-1]
+    ro = ro.reshape(-1, 4)
     ax = torch.empty_like(ro)
     mask_zero_ro = torch.abs(ro[..., 3]) == 0
     ax[mask_zero_ro] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
@@ -712,7 +732,7 @@ def ro2ax(ro: Tensor) -> Tensor:
         ro[mask_else, :3], dim=-1, keepdim=True
     )
     ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
-    return ax
+    return ax.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -746,6 +766,8 @@ def qu2ax(qu: Tensor) -> Tensor:
         torch.Tensor: shape (..., 4) axis-angle in the format (x, y, z, angle).
     """
 
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
     ax = torch.empty_like(qu)
     angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
 
@@ -765,7 +787,7 @@ def qu2ax(qu: Tensor) -> Tensor:
     ax[mask_identity, 2] = 1.0
     ax[mask_identity, 3] = 0.0
 
-    return ax
+    return ax.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -779,6 +801,8 @@ def qu2ro(qu: Tensor) -> Tensor:
     Returns:
         Tensor: shape (..., 4) Rodrigues-Frank (x, y, z, tan(angle/2))
     """
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
     ro = torch.empty_like(qu)
 
     # Handle general case
@@ -791,7 +815,7 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[mask_zero, 3] = float("inf")
-    return ro
+    return ro.view(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -806,7 +830,9 @@ def qu2bu(qu: Tensor) -> Tensor:
         torch.Tensor: shape (..., 3) Bunge angles in radians.
     """
 
-    bu = torch.empty(qu.shape[:-1] + (3,), dtype=qu.dtype, device=qu.device)
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
+    bu = torch.empty((qu.shape[0], 3), dtype=qu.dtype, device=qu.device)
 
     q03 = qu[..., 0] ** 2 + qu[..., 3] ** 2
     q12 = qu[..., 1] ** 2 + qu[..., 2] ** 2
@@ -839,7 +865,7 @@ def qu2bu(qu: Tensor) -> Tensor:
     bu[..., 0] = torch.where(bu[..., 0] < 0, bu[..., 0] + 2 * torch.pi, bu[..., 0])
     bu[..., 2] = torch.where(bu[..., 2] < 0, bu[..., 2] + 2 * torch.pi, bu[..., 2])
 
-    return bu
+    return bu.view(batch_dim + (3,))
 
 
 @torch.jit.script
-- 
2.43.0


From c348a466e8ae99fd1ff9c21c982cd9cd4d8bf2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 005/133] fix: qu2ro returned NaN for the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 5b201ec..55d0bf2 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -815,6 +815,10 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[mask_zero, 3] = float("inf")
+
+    # the identity has no axis: use the z axis like the other conversions
+    mask_identity = torch.sum(qu[..., 1:] ** 2, dim=-1) == 0
+    ro[mask_identity] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
     return ro.view(batch_dim + (4,))
 
 
-- 
2.43.0


From 2139e0d4d599e26fb2f1df825c9fc42dca53e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 006/133] fix: qu2ax and qu2ho for quaternions with negative
 real part

q and -q are the same rotation, but qu2ax returned a different rotation and
qu2ho a vector outside of the homochoric ball. qu2ho also clamped its input
in place.
---
 ebsdtorch/s2_and_so3/orientations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 55d0bf2..9c7193c 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -38,8 +38,10 @@ def qu2ho(qu: Tensor) -> Tensor:
     if qu.size(-1) != 4:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
+    # q and -q are the same rotation: use the one with non-negative real part
+    qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
+    angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
     # get the unit vector
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
@@ -769,7 +771,8 @@ def qu2ax(qu: Tensor) -> Tensor:
     batch_dim = qu.shape[:-1]
     qu = qu.reshape(-1, 4)
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    # the axis is flipped for negative real part so the angle is in [0, pi]
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), min=-1.0, max=1.0))
 
     s = torch.where(
         qu[..., 0:1] != 0,
-- 
2.43.0


From 9871f4d7da184771cba5b1becd81f8986bfd8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 007/133] fix: ro2ax returned a negative angle for a negative
 tangent

In FP32 the half angle of a 180 degree rotation has a negative tangent, and
the negative angle then made ro2om and ro2ho wrong.
---
 ebsdtorch/s2_and_so3/orientations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 9c7193c..a315602 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -734,6 +734,9 @@ def ro2ax(ro: Tensor) -> Tensor:
         ro[mask_else, :3], dim=-1, keepdim=True
     )
     ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
+
+    # negative tangent (FP32 tan(pi / 2) is one): same rotation about the opposite axis
+    ax = torch.where(ax[..., 3:4] < 0, -ax, ax)
     return ax.view(batch_dim + (4,))
 
 
-- 
2.43.0


From bae5b9d20b3109b778b3bf0618c486998ebde922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 008/133] fix: ax2om for negative angles

They were all treated with the small angle expansion.
---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index a315602..b2fa6a0 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -204,7 +204,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze(-1)
+    stable = (torch.abs(theta) > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
-- 
2.43.0


From 650979d35797eda653494f0d1b6215ece066103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 009/133] fix: qu_slerp for batches and for identical
 quaternions

The weights were broadcast against the wrong dimension and identical
quaternions gave NaN.
---
 ebsdtorch/s2_and_so3/quaternions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..035800d 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,13 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True)
+    angle = torch.acos(torch.clamp(cos_theta, min=-1.0, max=1.0))
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # the limit for identical quaternions is linear interpolation
+    w1 = torch.where(sin_theta == 0, 1 - t, torch.sin((1 - t) * angle) / sin_theta)
+    w2 = torch.where(sin_theta == 0, t, torch.sin(t * angle) / sin_theta)
+    return a * w1 + b * w2
 
 
 @torch.jit.script
-- 
2.43.0


From 84db16c0b26f17924954957a9e324a46a6665fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 010/133] fix: quaternion_rotate_sets_sphere for antiparallel
 points

It returned the identity, also for points up to 1.4 mrad from parallel.
---
 ebsdtorch/s2_and_so3/quaternions.py | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 035800d..4fa2384 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -245,26 +245,24 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
     # get the cross product of the two sets of points
-    cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
+    cross = torch.cross(points_start, points_finish, dim=-1)
+    cross_norm = torch.norm(cross, dim=-1, keepdim=True)
     # get the dot product of the two sets of points
-    dot = torch.sum(points_start[valid] * points_finish[valid], dim=-1)
+    dot = torch.sum(points_start * points_finish, dim=-1, keepdim=True)
     # get the angle
-    angle = torch.atan2(torch.norm(cross, dim=-1), dot)
-    # add tau to the angle if the cross product is negative
-    angle[angle < 0] += 2 * torch.pi
+    angle = torch.atan2(cross_norm, dot)
+    # the cross product does not define the axis for parallel and antiparallel points
+    # any axis perpendicular to the point is correct
+    smallest = torch.argmin(torch.abs(points_start), dim=-1, keepdim=True)
+    helper = torch.zeros_like(points_start).scatter_(-1, smallest, 1.0)
+    perpendicular = torch.cross(points_start, helper, dim=-1)
+    eps = 1e-4 if points_start.dtype == torch.float32 else 1e-8
+    degenerate = (cross_norm < eps) & (dot < 0) | (cross_norm == 0)
+    axis = torch.where(degenerate, perpendicular, cross)
+    axis = axis / torch.norm(axis, dim=-1, keepdim=True)
     # set the output
-    out = torch.empty(
-        (points_start.shape[0], 4), dtype=points_start.dtype, device=points_start.device
-    )
-    out[valid, 0] = torch.cos(angle / 2)
-    out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
-        cross / torch.norm(cross, dim=-1, keepdim=True)
-    )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
+    out = torch.cat((torch.cos(angle / 2), torch.sin(angle / 2) * axis), dim=-1)
     return out
 
 
-- 
2.43.0


From dd4ccf4680a139a28093d259533debd4771fb0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 011/133] fix: qu_angle NaN when rounding pushes the real part
 above one

---
 ebsdtorch/s2_and_so3/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 4fa2384..c75f6ef 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -277,4 +277,4 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    return 2 * torch.acos(qu[..., 0])
+    return 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
-- 
2.43.0


From 3c13b2edc1462f10723739654ea75acc386e18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 012/133] fix: spherical coordinate conversions for any leading
 batch shape

---
 ebsdtorch/s2_and_so3/sphere.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..2804d7e 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -32,7 +32,7 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
             torch.sin(theta) * torch.sin(phi),
             torch.cos(phi),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From 92661beb0628efe9ac9d92d4d02bbd85b7a8b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 013/133] fix: inv_rosca_lambert NaN at the center of the
 square

The center is the pole: any sampling grid with an odd side hits it.
---
 ebsdtorch/s2_and_so3/sphere.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 2804d7e..b79ba64 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -120,17 +120,12 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
-    # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    # only one case now (the origin has no azimuth: any finite value will do)
+    azimuth = pi * y_new / (4 * torch.where(x_new == 0, 1.0, x_new))
+    # rounding can put points just outside of the square
+    radius = (2 * x_new / pi) * torch.sqrt(torch.clamp(pi - x_new**2, min=0.0))
+    x_hs = radius * torch.cos(azimuth)
+    y_hs = radius * torch.sin(azimuth)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
-- 
2.43.0


From a68f65acd88edbaffe4f27e660a0a5efceedb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 014/133] fix: square_to_hemisphere NaN at the center of the
 square

---
 ebsdtorch/utils/rosca_lambert.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..e486941 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -19,8 +19,8 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
 
     # get shape of input
     shape_in = pts.shape[:-1]
-    n_pts = int(torch.prod(torch.tensor(shape_in)))
-    pts = pts.view(-1, 2)
+    pts = pts.reshape(-1, 2)
+    n_pts = pts.shape[0]
     pi = torch.pi
     a = pts[:, 0] * (pi / 2) ** 0.5
     b = pts[:, 1] * (pi / 2) ** 0.5
@@ -48,6 +48,9 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
         * torch.cos((pi * a[~m]) / (4 * b[~m]))
     )
     output[~m, 2] = 1 - (2 * b[~m] ** 2 / pi)
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    origin = (a == 0) & (b == 0)
+    output[origin] = torch.tensor([0.0, 0.0, 1.0], dtype=pts.dtype, device=pts.device)
     return output.reshape(shape_in + (3,))
 
 
@@ -98,7 +101,12 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_out = x_out.copysign_(x[..., 0])
     y_out = y_out.copysign_(x[..., 1])
 
-    return torch.stack((x_out, y_out, z_out), dim=-1)
+    out = torch.stack((x_out, y_out, z_out), dim=-1)
+
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    origin = (x[..., 0] == 0) & (x[..., 1] == 0)
+    pole = torch.tensor([0.0, 0.0, 1.0], dtype=x.dtype, device=x.device)
+    return torch.where(origin.unsqueeze(-1), pole, out)
 
 
 # # test speed of both functions on cuda
-- 
2.43.0


From 326101aaf8e6d74a866d0789c0f82161197202bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 015/133] fix: hexagon_to_hemisphere did not return points on
 the hemisphere

x and y were left as coordinates on the equal-area disk, only z was lifted.
---
 ebsdtorch/crystallography/kvectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..067de65 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -103,7 +103,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
     # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # (inverse of the Lambert equal-area azimuthal projection on the unit disk)
+    r_sq = x_out**2 + y_out**2
+    lift = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    out = torch.stack((y_out * lift, x_out * lift, 1.0 - r_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-- 
2.43.0


From 59bcd1301e0d2e2295451b07dc1030e8a5a40d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 016/133] fix: symmetry equivalent orientations are multiplied
 from the left

Orientations are applied as crystal direction = q * sample direction (pattern
simulation, coloring) and the disorientation of q1 * conj(q2) also has the
symmetry operators on the left of q1 and q2. ori_to_fz_laue and ori_equiv_laue
multiplied from the right, which gives an orientation that simulates a
different pattern.
---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..0ca65fa 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,8 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    # (orientations take sample directions to crystal directions: symmetry acts from the left)
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,8 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    # (orientations take sample directions to crystal directions: symmetry acts from the left)
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From 05c2ac29e049c932fe83f0c09e834dd592efb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 017/133] fix: Laue operators on the wrong sides in two phase
 disorientations

For the misorientation q1 * conj(q2) the operators of the first phase are on
the left and those of the second phase are on the right.
---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 24 ++++++++++++------------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 16 ++++++++--------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..1aae19f 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -50,11 +50,11 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     laue_group_1 = laue_elements(laue_id_1).to(qu.dtype).to(qu.device)
     laue_group_2 = laue_elements(laue_id_2).to(qu.dtype).to(qu.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(qu.reshape(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 0ca65fa..90c564d 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -387,11 +387,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -454,12 +454,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From a571d924338075d39a4ad5472eeacd8492d53fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 018/133] fix: disorientation angle NaN when rounding exceeds
 one

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 2 +-
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 1aae19f..02279e4 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -200,4 +200,4 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 90c564d..286b645 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -468,7 +468,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
 
 
 @torch.jit.script
-- 
2.43.0


From 4887efc0c7cbd2bbc8f1c708cbb80af21c5f8413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 019/133] fix: cube_to_rfz and rfz_to_cube were swapped

cube_to_rfz left the fundamental zone through the 111 faces.
---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 286b645..52619b4 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -264,7 +264,7 @@ def cube_to_rfz(
         # find indices to do the sorting by absolute values
         sorted, indices = torch.sort(cc_abs, dim=-1, descending=False)
         # we are pointing towards the 111 normal plane
-        # find the scaling factor to hit the z = 2**0.5 - 1 face
+        # find the scaling factor from the z = 2**0.5 - 1 face to the 111 normal plane
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
         factors = (
             torch.sum(cc_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
@@ -272,7 +272,7 @@ def cube_to_rfz(
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
         # scale the sorted values
-        rfz_coords = torch.where(scales, sorted * factors, sorted)
+        rfz_coords = torch.where(scales, sorted / factors, sorted)
         # scatter the sorted values back to the original order
         rfz_coords = torch.scatter(rfz_coords, -1, indices, rfz_coords)
         # copy the sign of the original values
@@ -305,12 +305,12 @@ def rfz_to_cube(
         # same as above but with reciprocal scaling
         sorted, indices = torch.sort(rfz_abs, dim=-1, descending=False)
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
-        # same factor but we divide by it
+        # same factor but we multiply by it
         factors = (
             torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
         )
         factors[factors.isnan()] = 1
-        cc = torch.where(scales, sorted / factors, sorted)
+        cc = torch.where(scales, sorted * factors, sorted)
         cc = torch.scatter(cc, -1, indices, cc)
         cc.copysign_(rfz)
         return cc
-- 
2.43.0


From a5318aec07dba0d19c3d7c832fabbef779c4454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 020/133] fix: fundamental sector membership at its boundary
 and at the poles

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..a697e84 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,24 +49,24 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(torch.clamp(z, -1.0, 1.0))
 
     if laue_id == 1:  # triclinic
-        cond = z >= 0.0
+        cond = z >= -EPS
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -77,7 +77,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.le(PI_2 + EPS)
             & chi.ge(0.0)
         )
@@ -87,13 +87,13 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
             torch.where(
                 eta.gt(PI_4),
                 chi
-                < torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
+                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & eta.ge(-EPS)
+            & eta.le(PI_4 + EPS)
+            & chi.ge(0.0)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-- 
2.43.0


From 7e25893096d505ca81ac44f698c8d1df8b3356aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 021/133] fix: s2_to_fz_laue for points on the sector boundary

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index a697e84..e1401a2 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -168,13 +168,12 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
 
     # get the important shapes
     data_shape = points.shape
-    N = torch.prod(torch.tensor(data_shape[:-1]))
 
     # get the laue group elements
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(-1, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
@@ -182,15 +181,13 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # find the points that are in the s2 fundamental zone
     cond = s2_in_fz_laue(equivalent_points, laue_id)
 
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
-
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
+    # points on the boundary have more than one equivalent point in the
+    # fundamental zone, so take the first one
+    first = torch.argmax(cond.to(torch.int64), dim=-1)
 
-    return equivalent_points[cond].reshape(data_shape)
+    return equivalent_points[
+        torch.arange(first.shape[0], device=points.device), first
+    ].reshape(data_shape)
 
 
 @torch.jit.script
-- 
2.43.0


From c491b7614cd02dbb5a76d0a933294bd42052df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 022/133] fix: s2_equiv_laue output shape

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index e1401a2..ee555d8 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -201,22 +201,21 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
         laue_id: laue group of points to move to fundamental zone
 
     Returns:
-        points in fundamental zone of shape (..., |laue_group|, 3)
+        points in fundamental zone of shape (..., 2 * |laue_group|, 3)
 
     """
 
     # get the important shapes
     data_shape = points.shape
-    N = torch.prod(torch.tensor(data_shape[:-1]))
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(-1, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From 8b8e74c96f00963678f678a60aa9ccc880aad1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 023/133] fix: Laue operators were only accurate to single
 precision

---
 ebsdtorch/s2_and_so3/laue_generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 6db1466..43019dc 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -246,4 +246,7 @@ def laue_elements(laue_id: int) -> Tensor:
         LAUE_O,  #  11 - Cubic high
     ]
 
-    return LAUE_GROUPS[laue_id - 1]
+    # TorchScript builds tensors from lists of floats in single precision, while
+    # the squares of the entries (0, 1/4, 1/2, 3/4, 1) are exact
+    elements = LAUE_GROUPS[laue_id - 1]
+    return torch.copysign(torch.sqrt(torch.round(4.0 * elements**2) / 4.0), elements)
-- 
2.43.0


From cdeb1d3e1e9abbf652327f395638dc42ffe0a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 024/133] fix: the north pole is in the fundamental sector of
 every Laue group

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index ee555d8..13ecce6 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -97,7 +97,10 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-    return cond
+
+    # eta is undefined at the north pole, which is in every fundamental sector
+    north_pole = (x.abs() <= EPS) & (y.abs() <= EPS) & (z > 0.0)
+    return cond | north_pole
 
 
 # # get planar coordinates that are within the fundamental sector
-- 
2.43.0


From 771bf671118948f901f5951dc2a1a92870f55471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 025/133] fix: hexagon_to_hemisphere of utils did not return
 points on the hemisphere

---
 ebsdtorch/utils/rosca_lambert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index e486941..f14b672 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -222,7 +222,15 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
     # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # (inverse of the Lambert equal-area azimuthal projection on the unit disk)
+    r_sq = x_out**2 + y_out**2
+    lift = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    out = torch.stack((y_out * lift, x_out * lift, 1.0 - r_sq), dim=-1)
+
+    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
+    mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
+    pole = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
+    return torch.where(mask.unsqueeze(-1), pole, out)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From fdf804e5036fb3078fed39cd612dc733254e3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 026/133] fix: angular resolution of orientation sampling was
 coarser than requested for high symmetry

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 52619b4..a6dd6e1 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -539,14 +539,9 @@ def sample_ori_fz_laue_angle(
         torch tensor of shape (n_samples, 4) containing the sampled orientations
 
     """
-    # get the multiplicity of the laue group
-    laue_mult = get_laue_mult(laue_id)
-
-    # use empirical fit to get the number of samples
-    n_so3_without_symmetry = (
-        2 * (131.97049) / (angular_resolution_deg - 0.03732) + 1
-    ) ** 3
-    edge_length = int((n_so3_without_symmetry / (0.5 * laue_mult)) ** (1.0 / 3.0) + 1.0)
+    # use empirical fit to get the number of samples along the edge of the cube. The
+    # resolution of the grid doesn't depend on symmetry, which only rejects samples
+    edge_length = int(2 * (131.97049) / (angular_resolution_deg - 0.03732) + 1 + 1.0)
     so3_samples = so3_cubochoric_grid(edge_length, device=device)
 
     # reject the points that are not in the fundamental zone
-- 
2.43.0


From 31cb386aebcfbfaa123748583ac5b43e5efb14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 027/133] fix: quantized nearest neighbors ignored the distance
 metric

---
 ebsdtorch/utils/knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..c7efd4c 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -132,6 +132,9 @@ class ChunkedKNN:
         self.match_device = match_device
         self.distance_metric = distance_metric
 
+        # the quantized matrix multiplication can only provide dot products
+        quantized_via_ao = quantized_via_ao and distance_metric == "angular"
+
         if (
             quantized_via_ao
             and match_dtype != torch.float32
-- 
2.43.0


From 01996a1ee6294514779c9fdb15c8daf370412793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 028/133] fix: nearest neighbors failed on data chunks smaller
 than topk

---
 ebsdtorch/utils/knn.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index c7efd4c..1e6f1dc 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -196,13 +196,16 @@ class ChunkedKNN:
         # send query to match device and dtype
         query = query.to(self.match_dtype).to(self.match_device)
 
+        # a data chunk can have fewer entries than the number of neighbors
+        k_chunk = min(self.topk, self.curr_end - self.curr_start)
+
         if self.quantized and self.match_device.type == "cpu":
             knn_dists_chunk, knn_inds_chunk = topk_quantized_data(
-                query, self.prepared_data, self.topk
+                query, self.prepared_data, k_chunk
             )
         else:
             knn_dists_chunk, knn_inds_chunk = knn_batch(
-                self.prepared_data, query, self.topk, self.distance_metric
+                self.prepared_data, query, k_chunk, self.distance_metric
             )
 
         # chunk indices -> global indices
@@ -236,13 +239,16 @@ class ChunkedKNN:
         query_end = query_start + query_chunk.shape[0]
         query_chunk = query_chunk.to(self.match_dtype).to(self.match_device)
 
+        # a data chunk can have fewer entries than the number of neighbors
+        k_chunk = min(self.topk, self.curr_end - self.curr_start)
+
         if self.quantized and self.match_device.type == "cpu":
             knn_distances_chunk, knn_indices_chunk = topk_quantized_data(
-                query_chunk, self.prepared_data, self.topk
+                query_chunk, self.prepared_data, k_chunk
             )
         else:
             knn_distances_chunk, knn_indices_chunk = knn_batch(
-                self.prepared_data, query_chunk, self.topk, self.distance_metric
+                self.prepared_data, query_chunk, k_chunk, self.distance_metric
             )
 
         knn_indices_chunk += self.curr_start
-- 
2.43.0


From ad2e37ec922d01111bfac79132a08851f37db6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 029/133] fix: nearest neighbor indices overflowed for large
 data sets

---
 ebsdtorch/utils/knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 1e6f1dc..e51a9b8 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -149,9 +149,8 @@ class ChunkedKNN:
         self.quantized = quantized_via_ao
 
         self.big_better = self.distance_metric == "angular"
-        ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
         self.knn_indices = torch.empty(
-            (self.query_size, self.topk), device=self.match_device, dtype=ind_dtype
+            (self.query_size, self.topk), device=self.match_device, dtype=torch.int64
         )
         self.knn_distances = torch.full(
             (self.query_size, self.topk),
-- 
2.43.0


From 14df3b0f25b712f07af9d06ed6275c55d78ca6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 030/133] fix: Laue group of space groups 149 to 155 and 194

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 5474c55eed5fe42573b88c50d764bff212fe6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 031/133] fix: FactorECM returned Carmichael numbers as primes

---
 ebsdtorch/utils/factorize.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index ca27503..89b9747 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -34,9 +34,17 @@ def FactorECM(N0):
             factors.append(x)
         return sorted(factors)
 
-    def is_probably_prime_fermat(n, trials=32):
-        for _ in range(trials):
-            if pow(random.randint(2, n - 2), n - 1, n) != 1:
+    def is_prime_miller_rabin(n):
+        # Fermat's test can't tell Carmichael numbers from primes. These bases
+        # are sufficient for all n < 3.3e24
+        d, s = n - 1, 0
+        while d % 2 == 0:
+            d, s = d // 2, s + 1
+        for base in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
+            if n % base == 0:
+                return n == base
+            x = pow(base, d, n)
+            if x != 1 and all(pow(x, 2**r, n) != n - 1 for r in range(s)):
                 return False
         return True
 
@@ -99,7 +107,7 @@ def FactorECM(N0):
         if N < (1 << 16):
             return factor_trial_division(N)
 
-        if is_probably_prime_fermat(N):
+        if is_prime_miller_rabin(N):
             return [N]
 
         while True:
-- 
2.43.0


From f5eb077f3d862cdea57f567394ff1901262c9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 032/133] fix: second setting of space groups could not be
 generated

---
 ebsdtorch/crystallography/groups.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..b520483 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -309,8 +309,8 @@ def read_sg_gen_string(
 
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
-        print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        # skip the flag, the three components of the origin shift come after it
+        t = gen_string[3 + 4 * gen_num : 6 + 4 * gen_num]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +334,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From 50f9f4d5bd19c8aa3dfe507e7ec2c028af81d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 033/133] fix: space group operators lost the homogeneous
 coordinate

---
 ebsdtorch/crystallography/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index b520483..6ff62bd 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -473,7 +473,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From fb1a1e325afba09128ea9ba39ccefb3beec292da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 034/133] fix: point group, crystal system and Laue group of a
 unit cell

---
 ebsdtorch/crystallography/unit_cell.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..4afa5df 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,13 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        self.pg_num = sum(1 for sg in sg_pg_beg if sg <= sg_num)
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = sum(1 for sg in sg_xt_beg if sg <= sg_num)
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From e4dbaece18202c71721caaabcd6c79592bc01cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 035/133] fix: reciprocal structure matrix was not transposed

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 4afa5df..8ff7986 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -298,8 +298,8 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct one
+        self.rsm = torch.linalg.inv(self.dsm).T
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From 949b28ab334796e27e3a1128ec28c2de3f978575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 036/133] fix: average atomic number and weight of cells with
 several sites

---
 ebsdtorch/crystallography/unit_cell.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 8ff7986..89562d2 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -352,17 +352,13 @@ class Cell:
         self.n_s = len(self.apos)
 
         # 8) Compute average atomic number, weight and density
+        n_atoms = self.atom_data[:, 3] * self.mults
         self.average_atomic_number = (
-            torch.mean(
-                self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
-            )
-            / self.mults.sum()
-        )
+            self.atom_types.to(torch.float64) * n_atoms
+        ).sum() / n_atoms.sum()
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
-        self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
-        )
+        self.average_atomic_weight = (a_weights * n_atoms).sum() / n_atoms.sum()
 
         # Density in g/cm^3
         # self.density = self.average_atomic_weight / (self.vol * 6.02214076e2)
-- 
2.43.0


From 8dcaec8f60b5c75393c3346cedd57c1aedc1b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 037/133] fix: cross products between direct, reciprocal and
 Cartesian space

---
 ebsdtorch/crystallography/unit_cell.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 89562d2..ae5818d 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -740,19 +740,31 @@ class Cell:
         vl = self.vol if scale_by_volume else torch.tensor(1.0, device=self.device)
 
         if inspace == "d":
+            # the cross product of direct vectors has reciprocal components
             r = vl * torch.cross(p, q, dim=-1)
-            if outspace == "d":
+            if outspace == "r":
+                return r
+            elif outspace == "d":
                 return torch.einsum("...i,ij->...j", r, self.rmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.rsm, r)
         elif inspace == "r":
+            # the cross product of reciprocal vectors has direct components
             r = torch.cross(p, q, dim=-1) / vl
-            if outspace == "r":
+            if outspace == "d":
+                return r
+            elif outspace == "r":
                 return torch.einsum("...i,ij->...j", r, self.dmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.dsm, r)
         elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+            r = torch.cross(p, q, dim=-1)
+            if outspace == "c":
+                return r
+            elif outspace == "d":
+                return torch.einsum("...i,ij->...j", r, self.rsm)
+            elif outspace == "r":
+                return torch.einsum("...i,ij->...j", r, self.dsm)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From c89b781a496b71449d1f15c601e1ac4097d70080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 038/133] fix: coordinate transformations that are not
 orthogonal

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index ae5818d..f3c7da0 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -585,14 +585,14 @@ class Cell:
 
         if space == "d":
             if direction == "on":
-                d = torch.einsum("...i,ji->...j", t, talpha)
+                d = torch.einsum("...i,ij->...j", t, torch.linalg.inv(talpha))
             else:
                 d = torch.einsum("...i,ij->...j", t, talpha)
         else:
             if direction == "on":
                 d = torch.einsum("ij,...j->...i", talpha, t)
             else:
-                d = torch.einsum("ji,...j->...i", talpha, t)
+                d = torch.einsum("ij,...j->...i", torch.linalg.inv(talpha), t)
 
         # Reshape back to original shape
         return d.reshape(original_shape)
-- 
2.43.0


From aeeb3ef4571283fda81741bc0621b4e62ead69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 039/133] fix: atom positions next to a cell face were counted
 twice

---
 ebsdtorch/crystallography/unit_cell.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index f3c7da0..74d5f76 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -133,8 +133,9 @@ def unique_rows(a: Tensor, eps: float = 5e-4) -> Tensor:
     for i in range(a.shape[0]):
         if not remove[i]:
             # equals = torch.all(torch.abs(a[i, :] - a[(i + 1) :]) < eps, dim=1)
-            # use sum
-            equals = torch.sum(torch.abs(a[i, :] - a[(i + 1) :]), dim=1) < eps
+            # use sum, fractional coordinates 0 and 1 are the same
+            diff = a[i, :] - a[(i + 1) :]
+            equals = torch.sum(torch.abs(diff - torch.round(diff)), dim=1) < eps
             remove[(i + 1) :] = torch.logical_or(remove[(i + 1) :], equals)
     return a[~remove]
 
@@ -336,9 +337,11 @@ class Cell:
         all_pos = torch.where(
             (all_pos).abs() < 1e-6, torch.zeros_like(all_pos), all_pos
         )
-        all_pos = torch.fmod(all_pos + 100.0, 1.0)
+        all_pos = torch.remainder(all_pos, 1.0)
         all_pos = torch.where(
-            (all_pos).abs() < 1e-6, torch.zeros_like(all_pos), all_pos
+            (all_pos - torch.round(all_pos)).abs() < 1e-6,
+            torch.zeros_like(all_pos),
+            all_pos,
         )
 
         # remove duplicates
-- 
2.43.0


From 51898f57bd6540911a7783beba7cbf1751cfa8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 040/133] fix: three fold axis of rhombohedral cells was not
 along z in the second structure matrix

---
 ebsdtorch/crystallography/unit_cell.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 74d5f76..72e9eb5 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -304,17 +304,13 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
 
-            x = (
-                2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
-                / torch.sqrt(torch.tensor(3.0, device=device))
-            )
+            x = 2 * torch.sin(0.5 * self.alpha) / 3.0**0.5
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
-- 
2.43.0


From c741fdd89a35282defd6e27b516108f6a6194a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 041/133] fix: reflection list missed the largest indices,
 oblique cells and contained 000

---
 ebsdtorch/crystallography/unit_cell.py | 96 ++++----------------------
 1 file changed, 14 insertions(+), 82 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 72e9eb5..b17d95e 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -867,43 +867,9 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
+        # |h| = |g . a| <= |g| a, which also holds for oblique cells
+        max_h, max_k, max_l = (
+            int(torch.floor(x / dmin + 1e-9).item()) for x in (self.a, self.b, self.c)
         )
 
         return max_h, max_k, max_l
@@ -933,54 +899,18 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        # Maximum indices along principal directions
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -989,12 +919,14 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From 706ae95ce45cfa7e3c0e11d1695c8e6439c53355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 042/133] fix: conversion of rhombohedral cells to hexagonal
 axes

---
 ebsdtorch/crystallography/unit_cell.py | 42 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index b17d95e..f6af13b 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -790,18 +790,12 @@ class Cell:
         Convert lattice parameters and atom coordinates to the hexagonal unit cell.
         We use the obverse setting in all cases.
         """
-        # Convert lattice parameters to hexagonal
-        calpha = torch.cos(self.alpha * torch.pi / 180.0)
-        ar = self.a
-
-        self.alpha = torch.tensor(90.0, device=self.device)
-        self.beta = torch.tensor(90.0, device=self.device)
-        self.gamma = torch.tensor(120.0, device=self.device)
-        self.a = ar * torch.sqrt(torch.tensor(2.0, device=self.device) - 2.0 * calpha)
-        self.b = self.a
-        self.c = ar * torch.sqrt(torch.tensor(3.0, device=self.device) + 6.0 * calpha)
-
-        # Transform matrix
+        # Convert lattice parameters to hexagonal (angles are stored in radians)
+        calpha = torch.cos(self.alpha)
+        a_hex = (self.a * torch.sqrt(2.0 - 2.0 * calpha)).item()
+        c_hex = (self.a * torch.sqrt(3.0 + 6.0 * calpha)).item()
+
+        # Transform matrix (acts on row vectors)
         M = torch.tensor(
             [
                 [2.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
@@ -809,13 +803,29 @@ class Cell:
                 [-1.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0],
             ],
             device=self.device,
+            dtype=self.atom_data.dtype,
         )
 
         # Transform atom coordinates
-        for i in range(self.atom_ntype):
-            pos = self.atom_data[i, :3].clone()
-            pos = torch.matmul(M, pos)
-            self.atom_data[i, :3] = pos
+        atom_data = self.atom_data.clone()
+        atom_data[:, :3] = torch.matmul(atom_data[:, :3], M)
+
+        # everything derived from the lattice and the atoms has to be recomputed
+        self.__init__(
+            sg_num=self.sg_num,
+            atom_data=[
+                (z, *data)
+                for z, data in zip(self.atom_types.tolist(), atom_data.tolist())
+            ],
+            abc=(a_hex, a_hex, c_hex),
+            abc_units="nm",
+            angles=(90.0, 90.0, 120.0),
+            angles_units="deg",
+            sg_setting=self.sg_setting,
+            xtalname=self.xtalname,
+            source=self.source,
+            device=self.device,
+        )
 
     def is_g_allowed(self, g: torch.Tensor) -> bool:
         """Determine whether a reflection is allowed by lattice centering.
-- 
2.43.0


From 026360364e7d3986d6cdef10eea94cb37dce89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 043/133] fix: half turns of ro2ax and qu2bu were only accurate
 to single precision

---
 ebsdtorch/s2_and_so3/orientations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index b2fa6a0..e9b9243 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -727,7 +727,8 @@ def ro2ax(ro: Tensor) -> Tensor:
 
     mask_inf_ro = torch.isinf(ro[..., 3])
     ax[mask_inf_ro, :3] = ro[mask_inf_ro, :3]
-    ax[mask_inf_ro, 3] = torch.pi
+    # scalars are assigned in single precision by TorchScript
+    ax[..., 3] = torch.where(mask_inf_ro, torch.pi, ax[..., 3])
 
     mask_else = ~(mask_zero_ro | mask_inf_ro)
     ax[mask_else, :3] = ro[mask_else, :3] / torch.norm(
@@ -858,7 +859,8 @@ def qu2bu(qu: Tensor) -> Tensor:
     bu[mA, 2] = 0
 
     bu[mB, 0] = torch.atan2(2 * qu[mB, 1] * qu[mB, 2], qu[mB, 1] ** 2 - qu[mB, 2] ** 2)
-    bu[mB, 1] = torch.pi
+    # scalars are assigned in single precision by TorchScript
+    bu[..., 1] = torch.where(mB, torch.pi, bu[..., 1])
     bu[mB, 2] = 0
 
     bu[mC, 0] = torch.atan2(
-- 
2.43.0


From 9b77c8a5691c383aca8831615932243bf343e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 044/133] fix: fundamental sector membership of directions next
 to the poles

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 13ecce6..9af2ec6 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -51,22 +51,25 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     eta = torch.atan2(y, x)
     chi = torch.acos(torch.clamp(z, -1.0, 1.0))
 
+    # rounding errors of the azimuth grow towards the poles
+    EPS_ETA = EPS / torch.clamp(torch.hypot(x, y), min=EPS)
+
     if laue_id == 1:  # triclinic
         cond = z >= -EPS
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS_ETA) & eta.le(torch.pi + EPS_ETA) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS_ETA) & eta.le(PI_2 + EPS_ETA) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(-EPS) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS_ETA) & eta.le(PI_4 + EPS_ETA) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS_ETA) & (eta.le(0.0 + EPS_ETA)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS_ETA) & eta.le(-PI_6 + EPS_ETA) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(-EPS) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS_ETA) & eta.le(PI_3 + EPS_ETA) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(-EPS) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS_ETA) & eta.le(PI_6 + EPS_ETA) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -77,8 +80,8 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(-EPS)
-            & eta.le(PI_2 + EPS)
+            & eta.ge(-EPS_ETA)
+            & eta.le(PI_2 + EPS_ETA)
             & chi.ge(0.0)
         )
     elif laue_id == 11:  # cubic-high
@@ -91,8 +94,8 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(-EPS)
-            & eta.le(PI_4 + EPS)
+            & eta.ge(-EPS_ETA)
+            & eta.le(PI_4 + EPS_ETA)
             & chi.ge(0.0)
         )
     else:
-- 
2.43.0


From ca41f8ec2da5678079d7423af2b68bd58b915008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 045/133] fix: hexagonal k-vector grids took oblique grid
 indices for Cartesian coordinates

---
 ebsdtorch/crystallography/kvectors.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 067de65..11bab8e 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -196,6 +196,10 @@ def kvectors_grid(
     # append hemisphere flag to k_ij
     k_ij = torch.cat((k_ij, torch.full_like(k_ij[:, 0:1], 1, device=device)), dim=1)
     xy = k_ij.float() / float(grid_half_width)
+    # indices of the hexagonal grid are along axes that are 120 degrees apart
+    xy_hex = torch.stack(
+        (xy[:, 0] - 0.5 * xy[:, 1], xy[:, 1] * (3**0.5) / 2.0), dim=-1
+    )
 
     if stnum == 1:  # triclinic 1
         kstar = square_to_hemisphere(xy)
@@ -264,7 +268,7 @@ def kvectors_grid(
     elif stnum == 10:  # hexagonal 3
         # keep x >= 0 and y >= 0 in hexagon with SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -286,7 +290,7 @@ def kvectors_grid(
             )
         # keep x >= 0 and y >= 0 and x >= y lacks SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -312,7 +316,7 @@ def kvectors_grid(
             & (k_ij[:, 0] >= (k_ij[:, 1] + 1) // 2)
             & (k_ij[:, 0] <= 2 * k_ij[:, 1])
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -326,7 +330,7 @@ def kvectors_grid(
     elif stnum == 15:  # hexagonal 31m, 6
         # keep kj >= 0 and ki >= kj with SH
         mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -352,7 +356,7 @@ def kvectors_grid(
             & (ang >= (torch.pi / 5.9999))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -366,7 +370,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -383,7 +387,7 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -406,7 +410,7 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
-- 
2.43.0


From d79684e48d85a0112ab012e41c0b05c0c7bb4c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 046/133] fix: k-vector sampling of space groups 148 to 155,
 157 and 159

---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 11bab8e..f9035df 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -161,11 +161,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
-- 
2.43.0


From 958de72d87391b3c72e44c34cb5d1ea149b3c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 047/133] fix: k-vectors of point groups -3, 32 and -6 covered
 half of the fundamental sector

---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index f9035df..f10935d 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -288,8 +288,8 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral 32 not implemented: use hexagonal setting."
             )
-        # keep x >= 0 and y >= 0 and x >= y lacks SH
-        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
+        # keep x >= 0 and y >= 0 (a third of the hexagon) lacks SH
+        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-- 
2.43.0


From 36880e7b0f36870a755779b98ba30413c906b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 048/133] fix: hybrid scattering factors were evaluated at 2 pi
 times the scattering vector

---
 ebsdtorch/crystallography/diffraction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index c75ac2d..a6f978a 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -285,8 +285,9 @@ def calc_helper_bloch_formalism(
             include_phonon=include_phonon,
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
+        # unlike the WK function there is no 2pi prefactor in the argument
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=0.1 * g_unique.float(),
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
@@ -497,8 +498,9 @@ def calc_helper_scatter_matrix(
             include_phonon=include_phonon,
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
+        # unlike the WK function there is no 2pi prefactor in the argument
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=0.1 * g_unique.float(),
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
-- 
2.43.0


From d784596e06fdea8d8de7578029b99c1aa811e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 049/133] fix: absorption length without absorption was complex
 valued

---
 ebsdtorch/crystallography/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index a6f978a..98b1885 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -340,7 +340,7 @@ def calc_helper_bloch_formalism(
         # complex Ucg = U_g + i Uprime_g = U_g,r-Uprime_g,i + i(U_g,i+Uprime_g,r)
         ucg = pre * torch.complex(ff.real - gg.imag, ff.imag + gg.real)
     else:
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(vmod)
         ucg = pre * ff
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
-- 
2.43.0


From 65f83a5aacb642270d9c1aeef4eb7e217e8ab28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 050/133] fix: LVD scattering factors of several voltages

---
 .../scattering_factors/scattering_factors_LVD_TCB.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index c40e1ca..7b042ca 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -378,6 +378,7 @@ def scatter_factor_LVD(
 
     # Calculate wavelength for each voltage
     k0 = 2.0 * torch.pi / e_wavelength_eV_to_A(1000.0 * voltage_kV)  # [N_V]
+    k0 = k0.view(N_V, 1, 1)
 
     # compute DWF
     dwf = torch.exp(-M_vals.view(-1, 1) * S.view(1, -1) ** 2).view(1, N_Z, N_g)
-- 
2.43.0


From 1f68c9bc0da5eaa8d00d98c6d09f49e9daa04e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 051/133] fix: master patterns of several voltages used every
 absorption length at once

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 02f248a..39af529 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -278,7 +278,7 @@ def ebsd_master_pattern(
             # form exp_A exactly instead of composing it via Zassenhaus
             A = (
                 dynmat_V[v]
-                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000))
+                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000[v]))
             ) * (1j * torch.pi * mlambdas[v])
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
-- 
2.43.0


From 6ba8efed14d9ba23b9fde04fd987c7bc23c99751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 052/133] fix: master pattern simulation normalized the Monte
 Carlo weights of the caller in place

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 39af529..21c8183 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -248,7 +248,7 @@ def ebsd_master_pattern(
     hkl_valid_fp = hkl_valid.to(kvectors.dtype)
 
     # normalize mc weights
-    mc_weights /= mc_weights.sum()
+    mc_weights = mc_weights / mc_weights.sum()
 
     # get depths_95 from the Monte Carlo weights
     energy_marginals_1d = mc_weights / mc_weights.sum(dim=1, keepdim=True)
-- 
2.43.0


From 4be6db020682301f57bcfebc7520336d273c0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 053/133] fix: depth step of master pattern simulations was
 ignored

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 21c8183..92d8f36 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -279,7 +279,7 @@ def ebsd_master_pattern(
             A = (
                 dynmat_V[v]
                 + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000[v]))
-            ) * (1j * torch.pi * mlambdas[v])
+            ) * (1j * torch.pi * mlambdas[v] * depth_step)
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
             # Initialize accumulated Lgh matrix
-- 
2.43.0


From 5e33381b1d33d86adc91453b82342f746a17892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 054/133] fix: rounding removed k-vectors on the edge of the
 hexagonal grid

---
 ebsdtorch/crystallography/kvectors.py | 32 +++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index f10935d..da947c0 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -270,8 +270,8 @@ def kvectors_grid(
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -292,8 +292,8 @@ def kvectors_grid(
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     # examining "PGSamplingType" & "getHexvsRho" in EMsoft: case 13 is infeasible
@@ -318,8 +318,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -332,8 +332,8 @@ def kvectors_grid(
         mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -358,8 +358,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 17:  # hexagonal -31m, 6/m, -62m
@@ -372,8 +372,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 18:  # hexagonal 6mm
@@ -389,8 +389,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -412,8 +412,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again outside of the hexagon (integer test: z is 0 on its edge)
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     else:
-- 
2.43.0


From eec09fcf3aa3d3042df131ef062e05486465919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 055/133] fix: k-vectors on the 30 degree line of hexagonal
 grids were left out

---
 ebsdtorch/crystallography/kvectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index da947c0..98aa49a 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -353,7 +353,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 5.9999))
+            & (ang >= (torch.pi / 6.0001))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
@@ -384,7 +384,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
+            & (ang <= (torch.pi / 5.9999))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
@@ -407,7 +407,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
+            & (ang <= (torch.pi / 5.9999))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
-- 
2.43.0


From 76780cd1092e861de215b5651b360b5624cafcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 056/133] fix: the pole was missing from the k-vectors of point
 groups -3m, 622 and -6m2

---
 ebsdtorch/crystallography/kvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 98aa49a..a813e7e 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -353,7 +353,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 6.0001))
+            & ((ang >= (torch.pi / 6.0001)) | (k_ij[:, 0] == 0))  # keep the pole
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
-- 
2.43.0


From 346a6aa3b24ff3e648b2c2d24274e270ef7ba6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 057/133] fix: an empty batch turned the running covariance
 into NaN

---
 ebsdtorch/utils/pca_covmat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index a79f621..8f4870e 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -70,8 +70,12 @@ def update_covmat(
     Returns:
         None
     """
-    # compute the batch mean
+    # an empty batch has no mean
     N = data_new.shape[0]
+    if N == 0:
+        return
+
+    # compute the batch mean
     batch_mean = torch.mean(data_new, dim=0, keepdim=True)
 
     # update the global mean
-- 
2.43.0


From 4917049cabef63d0bb48964870efbe9b4a3637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 058/133] fix: Oja++ with a single component divided by zero

---
 ebsdtorch/utils/pca_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 06bf3ed..e518a66 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -114,7 +114,7 @@ class OjaPCA(nn.Module):
 
         # For Oja++, gradually initialize columns
         if self.use_oja_plus and self.next_col_to_init < self.n_components:
-            if self.step % (self.n_components // 2) == 0:
+            if self.step % max(self.n_components // 2, 1) == 0:
                 self.Q[:, self.next_col_to_init] = torch.randn(
                     self.n_features, dtype=self.Q.dtype
                 )
-- 
2.43.0


From 377a4ef89207d6da56fab70d7d9fa8a7445a1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 059/133] fix: binned master pattern ignored the binning factor
 and later changes of the pattern

---
 ebsdtorch/ebsd/master_pattern.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..42ffe59 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -89,6 +89,7 @@ class MasterPattern(Module):
 
         self.master_pattern = master_pattern
         self.master_pattern_binned = None
+        self.binning_factor = None
         self.factor_dict = {}
 
     def bin(
@@ -111,6 +112,7 @@ class MasterPattern(Module):
         self.master_pattern_binned = torch.nn.functional.avg_pool2d(
             self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
         )[0, 0]
+        self.binning_factor = binning_factor
 
     def normalize(
         self,
@@ -137,6 +139,8 @@ class MasterPattern(Module):
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
             )
+        # the binned pattern belongs to the previous intensities
+        self.master_pattern_binned = None
 
     def interpolate(
         self,
@@ -168,7 +172,10 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
+            if (
+                self.master_pattern_binned is None
+                or self.binning_factor != virtual_binning
+            ):
                 self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
@@ -229,3 +236,5 @@ class MasterPattern(Module):
             n_bins=n_bins,
             grid_shape=grid_shape,
         )[0, 0]
+        # the binned pattern belongs to the previous intensities
+        self.master_pattern_binned = None
-- 
2.43.0


From 8aa9bef8e86b5c0ace173647e678419a146a59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 060/133] fix: normalizing a master pattern changed the tensor
 of the caller

---
 ebsdtorch/ebsd/master_pattern.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 42ffe59..82b4756 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -128,13 +128,15 @@ class MasterPattern(Module):
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
-            self.master_pattern -= pat_mins
-            self.master_pattern /= 1e-4 + pat_maxs - pat_mins
+            self.master_pattern = (self.master_pattern - pat_mins) / (
+                1e-4 + pat_maxs - pat_mins
+            )
         elif norm_type == "zeromean":
-            self.master_pattern -= torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(self.master_pattern)
         elif norm_type == "standard":
-            self.master_pattern -= torch.mean(self.master_pattern)
-            self.master_pattern /= torch.std(self.master_pattern)
+            self.master_pattern = (
+                self.master_pattern - torch.mean(self.master_pattern)
+            ) / torch.std(self.master_pattern)
         else:
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
-- 
2.43.0


From bc780cbc6dd5725237eb2092a0debf9d57aa4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 061/133] fix: master pattern interpolation failed on permuted
 coordinates

---
 ebsdtorch/ebsd/master_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 82b4756..108af59 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -201,7 +201,7 @@ class MasterPattern(Module):
                 self.factor_dict = {}
             self.factor_dict[n_elem] = H_pseudo, W_pseudo
 
-        projected_coords_2D = projected_coords_2D.view(H_pseudo, W_pseudo, 2)
+        projected_coords_2D = projected_coords_2D.reshape(H_pseudo, W_pseudo, 2)
 
         output = torch.nn.functional.grid_sample(
             # master patterns are viewed as (1, 1, H_master, 2*W_master)
-- 
2.43.0


From d7a91815f45992f2ae16d5a6d3fa97cbda646074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 062/133] fix: master pattern interpolation and binning mixed
 the two hemispheres across the seam

---
 ebsdtorch/ebsd/master_pattern.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 108af59..1ed7a5f 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -109,9 +109,16 @@ class MasterPattern(Module):
         # )
         # self.master_pattern_binned = blurrer(self.master_pattern[None, None, ...])[0, 0]
 
-        self.master_pattern_binned = torch.nn.functional.avg_pool2d(
-            self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
-        )[0, 0]
+        # bin the side by side hemispheres separately
+        self.master_pattern_binned = torch.cat(
+            [
+                torch.nn.functional.avg_pool2d(
+                    hemisphere[None, None, ...], binning_factor, stride=binning_factor
+                )[0, 0]
+                for hemisphere in self.master_pattern.chunk(2, dim=-1)
+            ],
+            dim=-1,
+        )
         self.binning_factor = binning_factor
 
     def normalize(
@@ -186,6 +193,25 @@ class MasterPattern(Module):
         # project to the square [-1, 1] x [-1, 1]
         projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
 
+        # the seam between the side by side hemispheres is not an edge they share:
+        # pixels on the other side of it must not contribute near the equator
+        W_master = master_pattern_prep.shape[-1]
+        south = coords_3D[..., 2] < 0
+        x_proj = projected_coords_2D[..., 0]
+        if align_corners:
+            # x in (-1, 1) on each hemisphere to the outermost pixel centers of each
+            side = south.to(x_proj.dtype)
+            x_local = x_proj * 2.0 + 1.0 - 2.0 * side
+            x_pixel = (x_local + 1.0) / 2.0 * (W_master / 2 - 1) + side * W_master / 2
+            x_proj = x_pixel * (2.0 / (W_master - 1)) - 1.0
+        else:
+            x_proj = torch.where(
+                south,
+                x_proj.clamp(min=1.0 / W_master),
+                x_proj.clamp(max=-1.0 / W_master),
+            )
+        projected_coords_2D = torch.stack((x_proj, projected_coords_2D[..., 1]), dim=-1)
+
         # we want to accept a generic number of dimensions (..., 2)
         # grid_sample will perform extremely poorly when given grid shaped:
         # (1, 1000000000, 1, 2) or (1, 1, 1000000000, 2) etc.
-- 
2.43.0


From b7f2f105f4fb6a02846a8e34892f9872b026a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 063/133] fix: binned master pattern stayed behind on
 conversion to another device or dtype

---
 ebsdtorch/ebsd/master_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 1ed7a5f..f80e7ee 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -88,7 +88,8 @@ class MasterPattern(Module):
             self.laue_group = space_group_to_laue(space_group)
 
         self.master_pattern = master_pattern
-        self.master_pattern_binned = None
+        # a buffer, so that it follows the pattern to another device or dtype
+        self.register_buffer("master_pattern_binned", None, persistent=False)
         self.binning_factor = None
         self.factor_dict = {}
 
-- 
2.43.0


From f2a26821559866ed5691bc3d45a866eb53e4fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 064/133] fix: CLAHE failed on double precision images

---
 ebsdtorch/preprocessing/clahe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index fb5609d..178159b 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -102,8 +102,8 @@ def clahe_grayscale(
     )
     coords = torch.meshgrid(
         [
-            torch.linspace(-1.0, 1.0, w_img, device=x.device),
-            torch.linspace(-1.0, 1.0, h_img, device=x.device),
+            torch.linspace(-1.0, 1.0, w_img, device=x.device, dtype=x.dtype),
+            torch.linspace(-1.0, 1.0, h_img, device=x.device, dtype=x.dtype),
         ],
         indexing="xy",
     )
@@ -119,7 +119,7 @@ def clahe_grayscale(
         dim=-1,
     )
     x = F.grid_sample(
-        cdfs[:, None, :, :, :],  # (B, 1, n_bins, GH, GW)
+        cdfs[:, None, :, :, :].to(x.dtype),  # (B, 1, n_bins, GH, GW)
         coords_into_cdfs,  # (B, 1, H, W, 3)
         mode="bilinear",
         padding_mode="border",
-- 
2.43.0


From 4f75a1ec050d0d0069ccba1b292831f669028940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 065/133] fix: importing the indexing module ran a
 demonstration that needs kikuchipy

---
 ebsdtorch/ebsd/indexing.py | 201 +++++++++++++++++++------------------
 1 file changed, 101 insertions(+), 100 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..5bc79ac 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -476,103 +476,104 @@ def pca_dictionary_index_orientations(
     )
 
 
-import torch
-import kikuchipy as kp
-import numpy as np
-
-device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
-
-geom = EBSDGeometry(
-    detector_shape=(60, 60),
-    proj_center=(0.4221, 0.2179, 0.4954),
-).to(device)
-
-# create the master pattern
-kp_mp = kp.data.nickel_ebsd_master_pattern_small(
-    projection="lambert", hemisphere="both"
-)
-mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
-mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
-master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
-mp = MasterPattern(
-    master_pattern,
-    laue_group=11,
-).to(device)
-mp.normalize(norm_type="minmax")
-# mp.apply_clahe()
-
-# create the experiment patterns object
-exp_pats = (
-    torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
-    .to(device)
-    .to(torch.float32)
-)
-
-exp_pats = ExperimentPatterns(
-    exp_pats,
-)
-
-# subtract background and do clahe
-exp_pats.standard_clean()
-# exp_pats.do_nlpar()
-
-# get radial mask
-from ebsdtorch.preprocessing.radial_mask import get_radial_mask
-
-mask = get_radial_mask(
-    shape=(60, 60),
-).to(device)
-# mask = None
-
-# # index the orientations
-# dictionary_index_orientations(
-#     mp,
-#     geom,
-#     exp_pats,
-#     dictionary_resolution_degrees=0.5,
-#     dictionary_chunk_size=4096,
-#     signal_mask=mask,
-#     virtual_binning=1,
-#     experiment_chunk_size=4096,
-#     match_dtype=torch.float16,
-# )
-
-# index the orientations
-pca_dictionary_index_orientations(
-    mp,
-    geom,
-    exp_pats,
-    dictionary_resolution_learn_deg=0.5,
-    dictionary_resolution_index_deg=0.2,
-    dictionary_chunk_size=4096,
-    signal_mask=mask,
-    virtual_binning=1,
-    experiment_chunk_size=4096,
-    match_dtype=torch.float16,
-    n_pca_components=500,
-)
-
-orientations = exp_pats.get_orientations().cpu().numpy()
-
-# plot the indexed orientations
-import numpy as np
-from orix import plot
-from orix.quaternion import Orientation
-from orix.vector import Vector3d
-from plotly.express import imshow
-
-# get the orientation colors
-pg_m3m = kp_mp.phase.point_group.laue
-ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
-
-# save rgb image
-orientations = Orientation(orientations)
-rgb = ckey_m3m.orientation2color(orientations)
-rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
-
-# plot the indexed orientations
-fig = imshow(rgb_byte)
-# set title
-fig.update_layout(title_text=f"Scan {1}")
-
-fig.show()
+if __name__ == "__main__":
+    import torch
+    import kikuchipy as kp
+    import numpy as np
+
+    device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
+
+    geom = EBSDGeometry(
+        detector_shape=(60, 60),
+        proj_center=(0.4221, 0.2179, 0.4954),
+    ).to(device)
+
+    # create the master pattern
+    kp_mp = kp.data.nickel_ebsd_master_pattern_small(
+        projection="lambert", hemisphere="both"
+    )
+    mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
+    mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
+    master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
+    mp = MasterPattern(
+        master_pattern,
+        laue_group=11,
+    ).to(device)
+    mp.normalize(norm_type="minmax")
+    # mp.apply_clahe()
+
+    # create the experiment patterns object
+    exp_pats = (
+        torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
+        .to(device)
+        .to(torch.float32)
+    )
+
+    exp_pats = ExperimentPatterns(
+        exp_pats,
+    )
+
+    # subtract background and do clahe
+    exp_pats.standard_clean()
+    # exp_pats.do_nlpar()
+
+    # get radial mask
+    from ebsdtorch.preprocessing.radial_mask import get_radial_mask
+
+    mask = get_radial_mask(
+        shape=(60, 60),
+    ).to(device)
+    # mask = None
+
+    # # index the orientations
+    # dictionary_index_orientations(
+    #     mp,
+    #     geom,
+    #     exp_pats,
+    #     dictionary_resolution_degrees=0.5,
+    #     dictionary_chunk_size=4096,
+    #     signal_mask=mask,
+    #     virtual_binning=1,
+    #     experiment_chunk_size=4096,
+    #     match_dtype=torch.float16,
+    # )
+
+    # index the orientations
+    pca_dictionary_index_orientations(
+        mp,
+        geom,
+        exp_pats,
+        dictionary_resolution_learn_deg=0.5,
+        dictionary_resolution_index_deg=0.2,
+        dictionary_chunk_size=4096,
+        signal_mask=mask,
+        virtual_binning=1,
+        experiment_chunk_size=4096,
+        match_dtype=torch.float16,
+        n_pca_components=500,
+    )
+
+    orientations = exp_pats.get_orientations().cpu().numpy()
+
+    # plot the indexed orientations
+    import numpy as np
+    from orix import plot
+    from orix.quaternion import Orientation
+    from orix.vector import Vector3d
+    from plotly.express import imshow
+
+    # get the orientation colors
+    pg_m3m = kp_mp.phase.point_group.laue
+    ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
+
+    # save rgb image
+    orientations = Orientation(orientations)
+    rgb = ckey_m3m.orientation2color(orientations)
+    rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
+
+    # plot the indexed orientations
+    fig = imshow(rgb_byte)
+    # set title
+    fig.update_layout(title_text=f"Scan {1}")
+
+    fig.show()
-- 
2.43.0


From f7b640915198125c32d82584142aa7fdb32c2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 066/133] fix: PCA dictionary indexing dropped the leading or
 all principal components

---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5bc79ac..0c179b8 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -352,7 +352,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From e2a5fbf9cab01489ef16bbcefa49ccb9de3e725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 067/133] fix: chunked dictionary indexing always subtracted
 the pattern means

---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 0c179b8..0b9c72f 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -182,9 +182,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -444,9 +445,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From 97207a371d41fd8a63aae2781e8daee2c634ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 068/133] fix: PCA dictionary indexing failed on binned
 patterns

---
 ebsdtorch/ebsd/indexing.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 0b9c72f..24341eb 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -281,17 +281,6 @@ def pca_dictionary_index_orientations(
             quantized_via_ao=quantized_via_ao,
         )
 
-        # get the dimensionality of each pattern
-        if signal_mask is not None:
-            n_pixels = signal_mask.sum().item()
-        else:
-            n_pixels = experiment_patterns.n_pixels
-
-        # make an object to do the PCA
-        pcacovmat = OnlineCovMatrix(
-            n_features=n_pixels,
-        ).to(mp.master_pattern.device)
-
         # get a helper function to sync devices
         if experiment_patterns.patterns.device.type == "cuda":
             sync = torch.cuda.synchronize
@@ -317,6 +306,11 @@ def pca_dictionary_index_orientations(
         if not signal_mask is None:
             detector_coords = detector_coords[:, signal_mask.flatten()]
 
+        # make an object to do the PCA on the (binned and masked) pixels
+        pcacovmat = OnlineCovMatrix(
+            n_features=detector_coords.shape[1],
+        ).to(mp.master_pattern.device)
+
         # iterate over the dictionary in chunks
         for ori_batch in pb:
             # use orientations to rotate the rays to detector pixel positions
@@ -406,9 +400,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
-- 
2.43.0


From b980fddb1e96cfc910344c3405cc269ac20b6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 069/133] fix: dictionary indexing with the angular metric
 favored patterns of high contrast

---
 ebsdtorch/ebsd/indexing.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 24341eb..896c933 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -142,6 +142,12 @@ def dictionary_index_orientations(
                 keepdim=True,
             )
 
+            # the angular metric compares directions: dot products of unit vectors
+            if distance_metric == "angular":
+                simulated_patterns = torch.nn.functional.normalize(
+                    simulated_patterns, dim=-1
+                )
+
             # set the data for the KNN object
             knn.set_data_chunk(simulated_patterns)
 
@@ -159,6 +165,8 @@ def dictionary_index_orientations(
                 # subtract the mean from each pattern and query the KNN object
                 if subtract_exp_pat_mean:
                     exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
+                if distance_metric == "angular":
+                    exp_pats = torch.nn.functional.normalize(exp_pats, dim=-1)
                 knn.query_all(exp_pats)
 
                 # synchronize the device for the progress bar
@@ -187,6 +195,9 @@ def dictionary_index_orientations(
                             query_chunk, dim=-1, keepdim=True
                         )
 
+                    if distance_metric == "angular":
+                        query_chunk = torch.nn.functional.normalize(query_chunk, dim=-1)
+
                     # query the KNN object
                     knn.query_chunk(
                         query_chunk.view(len(query_chunk), -1),
@@ -392,6 +403,12 @@ def pca_dictionary_index_orientations(
                 keepdim=True,
             )
 
+            # the angular metric compares directions: dot products of unit vectors
+            if distance_metric == "angular":
+                simulated_patterns = torch.nn.functional.normalize(
+                    simulated_patterns, dim=-1
+                )
+
             # project the simulated patterns onto the PCA components
             simulated_patterns_pca = torch.matmul(simulated_patterns, pca_matrix)
 
@@ -413,6 +430,9 @@ def pca_dictionary_index_orientations(
                 if subtract_exp_pat_mean:
                     exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
 
+                if distance_metric == "angular":
+                    exp_pats = torch.nn.functional.normalize(exp_pats, dim=-1)
+
                 # PCA projection
                 exp_pats = torch.matmul(exp_pats, pca_matrix)
 
@@ -445,6 +465,9 @@ def pca_dictionary_index_orientations(
                             query_chunk, dim=-1, keepdim=True
                         )
 
+                    if distance_metric == "angular":
+                        query_chunk = torch.nn.functional.normalize(query_chunk, dim=-1)
+
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
 
-- 
2.43.0


From c9bc6eb273b38c53e70a5038cff8f1d0478ec6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 070/133] fix: indexing results of several phases could not be
 combined

---
 ebsdtorch/ebsd/experiment_pats.py | 68 +++++++++----------------------
 1 file changed, 20 insertions(+), 48 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..323e20d 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -396,56 +396,28 @@ class ExperimentPatterns(Module):
         if not hasattr(self, "raw_indexing_results"):
             raise ValueError("Raw indexing results must be set before combining.")
 
-        if len(self.raw_indexing_results) > 1:
-            # loop over the phases, concatenate the metrics and only store the phase
-            # and quaternion with the best metric
-            if higher_is_better:
-                # fill metric with -inf
-                best_metrics = torch.full(
-                    (self.n_patterns,),
-                    float("-inf"),
-                    device=self.patterns.device,
-                )
-            else:
-                # fill metric with +inf
-                best_metrics = torch.full(
-                    (self.n_patterns,),
-                    float("inf"),
-                    device=self.patterns.device,
-                )
-
-            # make a phase_id tensor
+        # loop over the phases and only keep the phase and quaternion with the best
+        # metric, the matches of each phase are sorted so the top match comes first
+        best_metrics, orientations, phases = None, None, None
+        for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+            top_quaternions, top_metrics = quaternions[:, 0], metrics[:, 0]
             phase_ids = torch.full(
-                self.n_patterns,
-                fill_value=-1,
-                dtype=torch.uint8,
-                device=self.patterns.device,
-            )
-
-            # make a quaternion tensor
-            orientations = torch.zeros(
-                self.n_patterns,
-                4,
-                device=self.patterns.device,
-            )
-
-            for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
-                if higher_is_better:
-                    mask = metrics > best_metrics
-                else:
-                    mask = metrics < best_metrics
-                best_metrics[mask] = metrics[mask]
-                phase_ids[mask] = phase_id
-                orientations[mask] = quaternions[mask]
-            self.phases = phase_ids
-            self.orientations = orientations
-            self.best_metrics = best_metrics
-        else:
-            self.phases = torch.full(
                 (self.n_patterns,),
-                fill_value=list(self.raw_indexing_results.keys())[0],
+                fill_value=phase_id,
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            if best_metrics is None:
+                best_metrics, orientations = top_metrics, top_quaternions
+                phases = phase_ids
+                continue
+            if higher_is_better:
+                mask = top_metrics > best_metrics
+            else:
+                mask = top_metrics < best_metrics
+            best_metrics = torch.where(mask, top_metrics, best_metrics)
+            orientations = torch.where(mask[:, None], top_quaternions, orientations)
+            phases = torch.where(mask.to(phases.device), phase_ids, phases)
+        self.phases = phases
+        self.orientations = orientations
+        self.best_metrics = best_metrics
-- 
2.43.0


From f0e260d6be12a7e04c235d218faa53ef6ad3fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 071/133] fix: indices of a phase with a single pattern were
 not a list

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 323e20d..09236fb 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -360,7 +360,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(-1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From a17ef371cf62dbd96079ae9ef24d0c0fa6385c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 072/133] fix: missing spatial coordinates were not reported

---
 ebsdtorch/ebsd/experiment_pats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 09236fb..8acc997 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -54,6 +54,7 @@ class ExperimentPatterns(Module):
 
         self.phases = None
         self.orientations = None
+        self.spatial_coords = None
         self.inv_f_matrix = None
 
     def set_spatial_coords(
-- 
2.43.0


From 816d043521cbf3b6cd88826725ede8c51ed57f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 073/133] fix: cropped experimental patterns were refused

---
 ebsdtorch/ebsd/experiment_pats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 8acc997..2f67806 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -46,7 +46,7 @@ class ExperimentPatterns(Module):
 
         self.pattern_shape = patterns.shape[-2:]
         self.spatial_shape = patterns.shape[:-2] if len(patterns.shape) > 2 else (1, 1)
-        self.patterns = patterns.view(-1, *patterns.shape[-2:])
+        self.patterns = patterns.reshape(-1, *patterns.shape[-2:])
 
         # set number of patterns and pixels
         self.n_patterns = self.patterns.shape[0]
@@ -266,7 +266,7 @@ class ExperimentPatterns(Module):
 
         """
 
-        self.patterns = self.patterns.view(self.n_patterns, -1)
+        self.patterns = self.patterns.reshape(self.n_patterns, -1)
         if norm_type == "minmax":
             pat_mins = torch.min(self.patterns, dim=-1).values
             pat_maxs = torch.max(self.patterns, dim=-1).values
@@ -311,10 +311,10 @@ class ExperimentPatterns(Module):
 
         # temporarily view the patterns as a 4D tensor then shape back
         self.patterns = nlpar(
-            self.patterns.view(self.spatial_shape + self.pattern_shape),
+            self.patterns.reshape(self.spatial_shape + self.pattern_shape),
             k_rad=k_rad,
             coeff=coeff,
-        ).view(-1, *self.pattern_shape)
+        ).reshape(-1, *self.pattern_shape)
 
     def get_patterns(
         self,
-- 
2.43.0


From 4edf70487c2dc7d84ad969908a356bbf648d7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 074/133] fix: a deformation gradient shared by all patterns
 was refused

---
 ebsdtorch/ebsd/experiment_pats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 2f67806..056b475 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -189,6 +189,9 @@ class ExperimentPatterns(Module):
             f_matrix[:, 8] = 1.0
             f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
         else:
+            if f_matrix.shape[0] == 1:
+                # a single matrix is shared by all of the patterns
+                f_matrix = f_matrix.expand(self.n_patterns, *f_matrix.shape[1:])
             if f_matrix.shape[0] != self.n_patterns:
                 raise ValueError(
                     f"Deformation gradients must have the same number of patterns as the ExperimentPatterns object. "
@@ -200,7 +203,7 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Deformation gradients must be 3x3 matrices. Got {f_matrix.shape[-2:]} components."
                 )
-        self.inv_f_matrix = f_matrix.view(self.n_patterns, 3, 3)
+        self.inv_f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
 
     def get_inv_f_matrix(
         self,
-- 
2.43.0


From 5a2c3100f16a1b364549e61496c99ffd08c433d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 075/133] fix: indexing again kept the results of phases that
 are no longer indexed

---
 ebsdtorch/ebsd/indexing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 896c933..467d50a 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -56,6 +56,9 @@ def dictionary_index_orientations(
     if isinstance(master_patterns, MasterPattern):
         master_patterns = [master_patterns]
 
+    # forget the results of phases that were indexed earlier
+    experiment_patterns.raw_indexing_results = {}
+
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
@@ -270,6 +273,9 @@ def pca_dictionary_index_orientations(
     if isinstance(master_patterns, MasterPattern):
         master_patterns = [master_patterns]
 
+    # forget the results of phases that were indexed earlier
+    experiment_patterns.raw_indexing_results = {}
+
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
-- 
2.43.0


From 24bbb25adc23b3f1ad545a7aad1d729a93e15836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 076/133] fix: changing orientations changed the raw indexing
 results

---
 ebsdtorch/ebsd/experiment_pats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 056b475..b32586d 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -412,7 +412,8 @@ class ExperimentPatterns(Module):
                 device=self.patterns.device,
             )
             if best_metrics is None:
-                best_metrics, orientations = top_metrics, top_quaternions
+                # later changes of orientations must not reach the raw results
+                best_metrics, orientations = top_metrics, top_quaternions.clone()
                 phases = phase_ids
                 continue
             if higher_is_better:
-- 
2.43.0


From 4609ae9b4b3c9ab61ede77b9a467393c73fa5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 077/133] fix: SE(3) logarithms next to half turns and of
 batches with several dimensions

---
 ebsdtorch/lie_algebra/se3.py | 89 +++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..a5746f6 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -403,6 +403,55 @@ def se3_exp_map_split(vecs: Tensor) -> Tuple[Tensor, Tensor]:
     return rexp, tvec
 
 
+@torch.jit.script
+def om_to_w(rotation_matrix: Tensor) -> Tensor:
+    """
+    Compute the rotation vector of a rotation matrix for angles up to pi.
+
+    Args:
+        rotation_matrix: torch tensor of shape (..., 3, 3)
+
+    Returns:
+        torch tensor of shape (..., 3) containing the omega vectors
+
+    """
+    # the antisymmetric part is sin(theta) * axis
+    sin_axis = 0.5 * torch.stack(
+        (
+            rotation_matrix[..., 2, 1] - rotation_matrix[..., 1, 2],
+            rotation_matrix[..., 0, 2] - rotation_matrix[..., 2, 0],
+            rotation_matrix[..., 1, 0] - rotation_matrix[..., 0, 1],
+        ),
+        dim=-1,
+    )
+    sin_theta = torch.linalg.norm(sin_axis, dim=-1, keepdim=True)
+    rtrace = torch.diagonal(rotation_matrix, dim1=-2, dim2=-1).sum(-1)
+    cos_theta = 0.5 * (rtrace[..., None] - 1.0)
+
+    # atan2 is accurate for all angles, theta / sin(theta) goes to 1 at zero
+    theta = torch.atan2(sin_theta, cos_theta)
+    small = sin_theta < 1e-20
+    factor = torch.where(small, 1.0, theta / torch.where(small, 1.0, sin_theta))
+    omegas = factor * sin_axis
+
+    # the antisymmetric part vanishes at half turns: there the axis is taken
+    # from the symmetric part (1 - cos(theta)) * axis * axis^T
+    eye = torch.eye(3, dtype=rotation_matrix.dtype, device=rotation_matrix.device)
+    outer = (
+        0.5 * (rotation_matrix + rotation_matrix.transpose(-1, -2))
+        - cos_theta[..., None] * eye
+    )
+    largest = torch.argmax(torch.diagonal(outer, dim1=-2, dim2=-1), dim=-1)
+    axis = torch.gather(
+        outer, -2, largest[..., None, None].expand(outer.shape[:-2] + (1, 3))
+    ).squeeze(-2)
+    axis = axis * torch.where((axis * sin_axis).sum(-1, keepdim=True) < 0, -1.0, 1.0)
+    wide = cos_theta < -0.5
+    axis_norm = torch.linalg.norm(axis, dim=-1, keepdim=True)
+    axis = axis / torch.where(wide, axis_norm, 1.0)
+    return torch.where(wide, theta * axis, omegas)
+
+
 @torch.jit.script
 def se3_log_map_om(se3: Tensor) -> Tensor:
     """
@@ -417,25 +466,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     """
     data_shape = se3.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=se3.dtype, device=se3.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(se3[..., :3, :3], dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.01
-    omegas[..., 0] = se3[..., 2, 1] - se3[..., 1, 2]
-    omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
-    omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_to_w(se3[..., :3, :3])
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -458,25 +489,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     """
     data_shape = R.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=R.dtype, device=R.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(R, dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.0001
-    omegas[..., 0] = R[..., 2, 1] - R[..., 1, 2]
-    omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
-    omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_to_w(R)
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 81a2d81430db784ad093f1d4e5a43fb926d75867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 078/133] fix: SE(3) maps refused single vectors and lost
 precision at small angles in float32

---
 ebsdtorch/lie_algebra/se3.py | 129 ++++++++++++++---------------------
 1 file changed, 52 insertions(+), 77 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index a5746f6..86bc1b9 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -116,28 +116,29 @@ def w_exp(omega: Tensor) -> Tensor:
     skew_sq = torch.matmul(skew_mat, skew_mat)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.001)[..., 0, 0]
+    stable = theta > 0.001
+    safe = torch.where(stable, theta, 1.0)
 
     # This prefactor is only used for the calculation of exp(skew)
     # sin(theta) / theta
     # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta[~stable] ** 2 / 6 + theta[~stable] ** 4 / 120
+    prefactor1 = torch.where(
+        stable, torch.sin(safe) / safe, 1 - theta**2 / 6 + theta**4 / 120
+    )
 
     # This prefactor is shared between calculations of exp(skew) and v
-    # (1 - cos(theta)) / theta^2
+    # (1 - cos(theta)) / theta^2 (half angle avoids the cancellation)
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta[~stable] ** 2 / 24 + theta[~stable] ** 4 / 720
-
-    skew_exp = torch.empty_like(skew_mat)
-    skew_exp[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (torch.sin(theta[stable]) / theta[stable]) * skew_mat[stable]
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_sq[stable]
+    prefactor2 = torch.where(
+        stable,
+        2 * (torch.sin(safe / 2) / safe) ** 2,
+        1 / 2 - theta**2 / 24 + theta**4 / 720,
     )
-    skew_exp[~stable] = (
+
+    skew_exp = (
         torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor1 * skew_mat[~stable]
-        + prefactor2 * skew_sq[~stable]
+        + prefactor1 * skew_mat
+        + prefactor2 * skew_sq
     )
     return skew_exp
 
@@ -161,48 +162,31 @@ def w_exp_vmat(omega: Tensor) -> Tuple[Tensor, Tensor]:
     skew_sq = torch.matmul(skew_mat, skew_mat)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.001)[..., 0, 0]
+    stable = theta > 0.001
+    safe = torch.where(stable, theta, 1.0)
 
     # This prefactor is only used for the calculation of exp(skew)
     # sin(theta) / theta
     # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta[~stable] ** 2 / 6
+    prefactor1 = torch.where(stable, torch.sin(safe) / safe, 1 - theta**2 / 6)
 
     # This prefactor is shared between calculations of exp(skew) and v
-    # (1 - cos(theta)) / theta^2
+    # (1 - cos(theta)) / theta^2 (half angle avoids the cancellation)
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta[~stable] ** 2 / 24
+    prefactor2 = torch.where(
+        stable, 2 * (torch.sin(safe / 2) / safe) ** 2, 1 / 2 - theta**2 / 24
+    )
 
     # This prefactor is only used for the calculation of v
     # (theta - sin(theta)) / theta^3
     # expression: 1/6 - theta^2 / 120 + theta^4 / 5040 - theta^6 / 362880 ...
-    prefactor3 = 1 / 6 - theta[~stable] ** 2 / 120
-
-    skew_exp = torch.empty_like(skew_mat)
-    skew_exp[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (torch.sin(theta[stable]) / theta[stable]) * skew_mat[stable]
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_sq[stable]
-    )
-    skew_exp[~stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor1 * skew_mat[~stable]
-        + prefactor2 * skew_sq[~stable]
+    prefactor3 = torch.where(
+        stable, (safe - torch.sin(safe)) / safe**3, 1 / 6 - theta**2 / 120
     )
-    # skew_exp = torch.matrix_exp(skew_mat)
 
-    v = torch.empty_like(skew_mat)
-    v[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_mat[stable]
-        + ((theta[stable] - torch.sin(theta[stable])) / theta[stable] ** 3)
-        * skew_sq[stable]
-    )
-    v[~stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor2 * skew_mat[~stable]
-        + prefactor3 * skew_sq[~stable]
-    )
+    eye = torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
+    skew_exp = eye + prefactor1 * skew_mat + prefactor2 * skew_sq
+    v = eye + prefactor2 * skew_mat + prefactor3 * skew_sq
 
     return skew_exp, v
 
@@ -224,28 +208,29 @@ def w_to_v(omega: Tensor) -> Tensor:
     skew_omega2 = torch.matmul(skew_omega, skew_omega)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05)[..., 0, 0]
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, 1.0)
 
-    # (1 - cos(theta)) / theta^2
+    # (1 - cos(theta)) / theta^2 (half angle avoids the cancellation)
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    factor1 = 1 / 2 - theta[~stable] ** 2 / 24 + theta[~stable] ** 4 / 720
+    factor1 = torch.where(
+        stable,
+        2 * (torch.sin(safe / 2) / safe) ** 2,
+        1 / 2 - theta**2 / 24 + theta**4 / 720,
+    )
 
     # (theta - sin(theta)) / theta^3
     # expression: 1/6 - theta^2 / 120 + theta^4 / 5040 - theta^6 / 362880 ...
-    factor2 = 1 / 6 - theta[~stable] ** 2 / 120 + theta[~stable] ** 4 / 5040
-
-    v = torch.empty_like(skew_omega)
-
-    v[stable] = (
-        torch.eye(3, dtype=omega.dtype, device=omega.device)
-        + ((1 - torch.cos(theta[stable])) / theta[stable] ** 2) * skew_omega[stable]
-        + ((theta[stable] - torch.sin(theta[stable])) / theta[stable] ** 3)
-        * skew_omega2[stable]
+    factor2 = torch.where(
+        stable,
+        (safe - torch.sin(safe)) / safe**3,
+        1 / 6 - theta**2 / 120 + theta**4 / 5040,
     )
-    v[~stable] = (
+
+    v = (
         torch.eye(3, dtype=omega.dtype, device=omega.device)
-        + factor1 * skew_omega[~stable]
-        + factor2 * skew_omega2[~stable]
+        + factor1 * skew_omega
+        + factor2 * skew_omega2
     )
     return v
 
@@ -266,30 +251,20 @@ def w_to_v_inv(omega: Tensor) -> Tensor:
     skew_omega = skew(omega)
     skew_omega2 = torch.matmul(skew_omega, skew_omega)
 
-    v_inv = torch.empty_like(skew_omega)
-    stable = (theta > 0.05)[..., 0, 0]
-    v_inv[stable] = (
-        torch.eye(3, dtype=omega.dtype, device=omega.device)
-        - 0.5 * skew_omega[stable]
-        + (
-            1
-            - (
-                theta[stable]
-                * torch.cos(theta[stable] / 2.0)
-                / (2 * torch.sin(theta[stable] / 2.0))
-            )
-        )
-        / theta[stable] ** 2
-        * skew_omega2[stable]
-    )
     # (1 - theta * cos(theta / 2) / (2 * sin(theta / 2))) / theta^2
     # expression: 1/12 + 1/720 * theta^2 + 1/30240 * theta^4
-    factor_approx = 1 / 12 + theta[~stable] ** 2 / 720 + theta[~stable] ** 4 / 30240
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, 1.0)
+    factor = torch.where(
+        stable,
+        (1 - safe * torch.cos(safe / 2.0) / (2 * torch.sin(safe / 2.0))) / safe**2,
+        1 / 12 + theta**2 / 720 + theta**4 / 30240,
+    )
 
-    v_inv[~stable] = (
+    v_inv = (
         torch.eye(3, dtype=omega.dtype, device=omega.device)
-        - 0.5 * skew_omega[~stable]
-        + factor_approx * skew_omega2[~stable]
+        - 0.5 * skew_omega
+        + factor * skew_omega2
     )
 
     return v_inv
-- 
2.43.0


From ed70a94eefd53c2e209770ddaf093e389fae5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 079/133] fix: SE(3) maps refused vectors that are not
 contiguous

---
 ebsdtorch/lie_algebra/se3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index 86bc1b9..4e40417 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -89,12 +89,12 @@ def skew(omega: Tensor) -> Tensor:
     data_shape = omega.shape[:-1]
     data_n = int(torch.prod(torch.tensor(data_shape)))
     out = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
-    out[..., 0, 1] = -omega[..., 2].view(-1)
-    out[..., 0, 2] = omega[..., 1].view(-1)
-    out[..., 1, 2] = -omega[..., 0].view(-1)
-    out[..., 1, 0] = omega[..., 2].view(-1)
-    out[..., 2, 0] = -omega[..., 1].view(-1)
-    out[..., 2, 1] = omega[..., 0].view(-1)
+    out[..., 0, 1] = -omega[..., 2].reshape(-1)
+    out[..., 0, 2] = omega[..., 1].reshape(-1)
+    out[..., 1, 2] = -omega[..., 0].reshape(-1)
+    out[..., 1, 0] = omega[..., 2].reshape(-1)
+    out[..., 2, 0] = -omega[..., 1].reshape(-1)
+    out[..., 2, 1] = omega[..., 0].reshape(-1)
     return out.view(data_shape + (3, 3))
 
 
-- 
2.43.0


From f822ae3953eb140b5d8ef5113c5c730b29099b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 080/133] fix: detector pixel coordinates were stretched by one
 pixel

---
 ebsdtorch/ebsd/fitting.py  | 4 ++--
 ebsdtorch/ebsd/geometry.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..a9fe3b3 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -191,14 +191,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..8a50fdf 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -483,14 +483,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
-- 
2.43.0


From 58d3abb6f929a3795d5228494039fc3ff7c04b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 081/133] fix: tilts recovered from the detector geometry lost
 their sign

---
 ebsdtorch/ebsd/fitting.py  | 7 +++----
 ebsdtorch/ebsd/geometry.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index a9fe3b3..a015e90 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # both angles have a sign
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 8a50fdf..84ba23e 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # both angles have a sign
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 32e440fcc13a22e9ae3aa1a542f9f08f48e43e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 082/133] fix: detector transformation had a batch dimension
 and back projection a spurious one

---
 ebsdtorch/ebsd/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 84ba23e..1a34005 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -273,8 +273,8 @@ class EBSDGeometry(Module):
         detector_2_sample = self.pc_SE3_matrix @ tune_se3
 
         # split the SE3 matrix into rotation and translation
-        rotation_matrix = detector_2_sample[..., :3, :3]
-        translation_vector = detector_2_sample[..., :3, 3]
+        rotation_matrix = detector_2_sample[0, :3, :3]
+        translation_vector = detector_2_sample[0, :3, 3]
 
         return rotation_matrix, translation_vector
 
-- 
2.43.0


From e98fb089c2e5ec12bf13ce823c1faed1700c5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 083/133] fix: detector coordinates in double precision were
 refused

---
 ebsdtorch/ebsd/geometry.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 1a34005..cc5700a 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -321,6 +321,12 @@ class EBSDGeometry(Module):
         # get the transformation matrix
         rotation_matrix, translation_vector = self.get_detector2sample()
 
+        # use the wider type of the geometry and the coordinates
+        dtype = torch.promote_types(rotation_matrix.dtype, pixel_coordinates.dtype)
+        rotation_matrix = rotation_matrix.to(dtype)
+        translation_vector = translation_vector.to(dtype)
+        pixel_coordinates = pixel_coordinates.to(dtype)
+
         # convert to 3D coordinates
         pixel_coordinates = torch.cat(
             [pixel_coordinates, torch.zeros_like(pixel_coordinates[..., 0:1])], dim=-1
@@ -374,6 +380,14 @@ class EBSDGeometry(Module):
         # get the transformation matrix
         rotation_matrix, translation_vector = self.get_detector2sample()
 
+        # use the wider type of the geometry and the directions
+        dtype = torch.promote_types(rotation_matrix.dtype, ray_directions.dtype)
+        rotation_matrix = rotation_matrix.to(dtype)
+        translation_vector = translation_vector.to(dtype)
+        ray_directions = ray_directions.to(dtype)
+        if scan_coordinates is not None:
+            scan_coordinates = scan_coordinates.to(dtype)
+
         if scan_coordinates is not None:
             # add the scan coordinates to the ray directions to get the sample coordinates
             ray_origins_sample = torch.concatenate(
@@ -499,7 +513,7 @@ class EBSDGeometry(Module):
             dim=-1,
         ).view(-1, 2)
 
-        return self.project2sample(pixel_coordinates)
+        return self.project2sample(pixel_coordinates).to(dtype)
 
 
 # # test the forward and inverse projection for 3 example pixel coordinates
-- 
2.43.0


From b627e9f28354749f01e7987fd7ab45d0fdba50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 084/133] fix: detector pixel coordinates of HR-EBSD
 projections were stretched by one pixel

---
 ebsdtorch/ebsd/project_hrebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From c7b32eb409d12a8bb14dc10d3e1288660b661237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 085/133] fix: pixel coordinates around the detector did not
 continue the binned pixel grid

---
 ebsdtorch/ebsd/fitting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index a015e90..20f5b21 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -257,15 +257,21 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - binning_fp * h_pad_prior,
+                detector_shape[0]
+                - 1
+                + binning_fp * h_pad_after
+                - (0.5 * (binning_fp - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - binning_fp * w_pad_prior,
+                detector_shape[1]
+                - 1
+                + binning_fp * w_pad_after
+                - (0.5 * (binning_fp - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
-- 
2.43.0


From 04a4ca7de405560663f0ddb7431995a6d12009cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 086/133] fix: NLPAR did not use the eight nearest neighbors
 for the noise level

---
 ebsdtorch/preprocessing/nlpar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..244b834 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -90,11 +90,9 @@ def nlpar(
         dim=-1,
     ).reshape(-1, 2)
 
-    # find indices of 8 nearest neighbors
-    # closest point is self so we skip it
-    offset_coords = offset_coords[
-        torch.argsort(torch.sum(torch.abs(offset_coords), dim=-1))
-    ]
+    # sort by distance so that self comes first and then its 8 nearest neighbors
+    # (the other patterns of the 3x3 kernel)
+    offset_coords = offset_coords[torch.argsort(torch.sum(offset_coords**2, dim=-1))]
 
     starts_i = k_rad + offset_coords[:, 0]
     ends_i = k_rad + offset_coords[:, 0] + h_scan
-- 
2.43.0


From 219b220369bfb67bfd01e81b863d9b3423e0c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 087/133] fix: NLPAR took the padding around the scan for
 neighboring patterns

---
 ebsdtorch/preprocessing/nlpar.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 244b834..6cee860 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -113,10 +113,12 @@ def nlpar(
             starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]
         ]
 
-    # estimate the noise level for the entire scan
-    sigma_hat = torch.sqrt(
-        torch.min(dists[:, :, 1:9], dim=-1).values / (2 * n_pixels_per_pat)
-    )
+    # estimate the noise level for the entire scan (padded values are no neighbors)
+    nn_dists = dists[:, :, 1:9].masked_fill(out_bounds_mask_all[:, :, 1:9], torch.inf)
+    min_nn_dists = torch.min(nn_dists, dim=-1).values
+    # a scan of a single pattern has no neighbors at all
+    min_nn_dists = min_nn_dists.masked_fill(torch.isinf(min_nn_dists), 0.0)
+    sigma_hat = torch.sqrt(min_nn_dists / (2 * n_pixels_per_pat))
     # pad sigma_hat so we can use offsets
     sigma_hat_padded = torch.nn.functional.pad(
         sigma_hat,
@@ -142,7 +144,8 @@ def nlpar(
     # x = x - f / f'
     # The current implementation uses Nelder-Mead optimization to find the coefficient
     guess_coeff = 1.0
-    nn_weights = weights[:, :, :9]
+    # padded values do not take part (a large negative number keeps the gradient finite)
+    nn_weights = weights[:, :, :9].masked_fill(out_bounds_mask_all[:, :, :9], -1e9)
     for _ in range(10):
         # notice that guess_coeff_sq is only calculated at the beginning
         guess_coeff_sq = guess_coeff**2
-- 
2.43.0


From 1d1385a752c3588b1533d6647dcd08cdd6556530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 088/133] fix: NLPAR turned scans with identical neighboring
 patterns into NaN

---
 ebsdtorch/preprocessing/nlpar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 6cee860..0e45783 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -129,9 +129,11 @@ def nlpar(
     # iterate and normalize the squared differences
     for i in range(n_pats_per_kernel):
         sigma_other = sigma_hat_padded[starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]]
-        dists[:, :, i] = (
-            dists[:, :, i] - n_pixels_per_pat * (sigma_hat**2 + sigma_other**2)
-        ) / (2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2))
+        # identical patterns have no noise, avoid 0 / 0
+        var_sum = sigma_hat**2 + sigma_other**2
+        dists[:, :, i] = (dists[:, :, i] - n_pixels_per_pat * var_sum) / (
+            2**0.5 * n_pixels_per_pat**0.5 * var_sum.clamp_min(1e-30)
+        )
 
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
-- 
2.43.0


From d4b7c1aece747fe14221a82573945e5184ab987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 089/133] fix: NLPAR's fit of the weight of the original
 pattern diverged

---
 ebsdtorch/preprocessing/nlpar.py | 46 ++++++++++++--------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 0e45783..3c5d84e 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -32,7 +32,7 @@ def nlpar(
         data (Tensor): The EBSD pattern data tensor.
         k_rad (int): The radius of the kernel.
         coeff (float): higher -> original pattern has more weight
-        coeff_fit_tol (float): tolerance (Newton's method) to hit coeff
+        coeff_fit_tol (float): tolerance (bisection) to hit coeff
         center_logit_bias (float): higher -> constant bias towards original pattern
 
     Returns:
@@ -140,42 +140,30 @@ def nlpar(
 
     # need average first bin in softmax normed pdf to equal coeff specified
     # by definition only applicable to the 3x3 NN kernel even when doing a larger kernel
-    # f  = exp(w[0]/x^2) / sum(exp(w[i]/x^2)) - coeff
-    # f' = -2 * exp(w[0]/x^2) * (sum(w[0] * exp(w[i]/x^2)) - sum(w[i] * exp(w[i]/x^2))) / x^3 * sum(exp(w[i]/x^2))^2
-    # Newton's method:
-    # x = x - f / f'
-    # The current implementation uses Nelder-Mead optimization to find the coefficient
-    guess_coeff = 1.0
-    # padded values do not take part (a large negative number keeps the gradient finite)
-    nn_weights = weights[:, :, :9].masked_fill(out_bounds_mask_all[:, :, :9], -1e9)
-    for _ in range(10):
-        # notice that guess_coeff_sq is only calculated at the beginning
-        guess_coeff_sq = guess_coeff**2
+    # f = mean(exp(w[0]/x) / sum(exp(w[i]/x))) decreases with x, from the share of the
+    # center among patterns at distance zero to the one of equal weights, so bisection
+    # (of the exponent of x) always converges. Newton's method diverges for flat f.
+    # padded values do not take part
+    nn_weights = weights[:, :, :9].masked_fill(
+        out_bounds_mask_all[:, :, :9], -torch.inf
+    )
+    log_lower, log_upper = -12.0, 12.0
+    guess_coeff_sq = 1.0
+    for _ in range(60):
+        guess_coeff_sq = 10.0 ** (0.5 * (log_lower + log_upper))
         obj = (
             torch.mean(torch.softmax(nn_weights / guess_coeff_sq, dim=-1)[:, :, 0])
             - coeff
         )
-        grad = torch.mean(
-            -2
-            * torch.exp(nn_weights[:, :, 0] / guess_coeff_sq)
-            * (
-                torch.sum(
-                    nn_weights[:, :, [0]] * torch.exp(nn_weights / guess_coeff_sq),
-                    dim=-1,
-                )
-                - torch.sum(nn_weights * torch.exp(nn_weights / guess_coeff_sq), dim=-1)
-            )
-            / (
-                guess_coeff**3
-                * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
-            )
-        )
-        guess_coeff -= obj / grad
         if torch.abs(obj) < coeff_fit_tol:
             break
+        if obj > 0:
+            log_lower = 0.5 * (log_lower + log_upper)
+        else:
+            log_upper = 0.5 * (log_lower + log_upper)
 
     # apply the computed coefficient to the weights
-    weights /= guess_coeff**2
+    weights /= guess_coeff_sq
 
     # bias the original pattern
     if center_logit_bias > 0:
-- 
2.43.0


From 54a603c3d0694f4144f9287d39a91984f07ba670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 090/133] fix: Gaussian blur cut off the last row and column

---
 ebsdtorch/preprocessing/resampling.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..ee97df3 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -38,16 +38,6 @@ class GaussianBlur2d(Module):
 
         # apply convolution
         x = F.conv2d(x, self.kernel, padding=0)
-
-        # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
         return x
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
@@ -71,15 +61,9 @@ class GaussianBlur2d(Module):
         return kernel.view(1, 1, kernel.shape[-1], kernel.shape[-2])
 
     def _compute_padding(self, x: torch.Tensor) -> tuple[int, int, int, int]:
-        kernel_size = self.kernel.shape[-1]
-        w_even = x.shape[-1] % 2 == 0
-        h_even = x.shape[-2] % 2 == 0
-        return (
-            kernel_size // 2,
-            kernel_size // 2 + int(w_even),
-            kernel_size // 2,
-            kernel_size // 2 + int(h_even),
-        )
+        # the kernel size is odd so the output has the shape of the input
+        half_size = self.kernel.shape[-1] // 2
+        return (half_size, half_size, half_size, half_size)
 
     @staticmethod
     def _crop_padding(x: torch.Tensor, pad: tuple[int, int, int, int]) -> torch.Tensor:
-- 
2.43.0


From 688743c59bb39a54919ff7056c3b3f1629a151dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 091/133] fix: master patterns of crystals with several sites
 could not be read

---
 ebsdtorch/io/read_master_pattern.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/io/read_master_pattern.py b/ebsdtorch/io/read_master_pattern.py
index afc9377..e231c7b 100644
--- a/ebsdtorch/io/read_master_pattern.py
+++ b/ebsdtorch/io/read_master_pattern.py
@@ -21,17 +21,18 @@ def read_master_pattern(file_path) -> MasterPattern:
 
         # load in the actual master patterns per energy
         # mLPNH = modified Lambert projection of North hemisphere
-        # this will be (1, n_energies, H, W) shaped
-        north_master_patterns = (
-            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).squeeze()
-        )
-        south_master_patterns = (
-            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).squeeze()
-        )
+        # this will be (n_sites, n_energies, H, W) shaped, and the pattern of the
+        # crystal is the sum over the sites of the asymmetric unit
+        north_master_patterns = f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32)
+        south_master_patterns = f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32)
 
         # load the space group number to have the Laue group
         space_group = f["CrystalData/SpaceGroupNumber"][0]
 
+    map_shape = (-1,) + north_master_patterns.shape[-3:]
+    north_master_patterns = north_master_patterns.reshape(map_shape).sum(axis=0)
+    south_master_patterns = south_master_patterns.reshape(map_shape).sum(axis=0)
+
     # get (n_energies,) shape pdf by accumulating over the lambert projection
     probabilities = e_accum.sum(axis=(0, 1))
     # normalize the probabilities
-- 
2.43.0


From 8c9a551fc56e8ed6fcabfe26cf14740a82e90b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 092/133] fix: axial refinement grids were empty for some
 kernel radii

---
 ebsdtorch/ebsd/refining.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9a4cf73..3f707ba 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -44,11 +44,10 @@ def get_local_orientation_grid(
     semi_edge_cubochoric = semi_edge_in_degrees * torch.pi ** (2 / 3) / 360.0
 
     # make a meshgrid of cubochoric coordinates
-    cu = torch.linspace(
-        -semi_edge_cubochoric,
-        semi_edge_cubochoric,
-        2 * kernel_radius_in_steps + 1,
-    )
+    # (multiples of the step: the center has to be exactly 0 to be found below)
+    cu = torch.arange(
+        -kernel_radius_in_steps, kernel_radius_in_steps + 1, dtype=torch.float32
+    ) * (semi_edge_cubochoric / max(kernel_radius_in_steps, 1))
 
     # get cartesian product meshgrid
     cu = torch.stack(torch.meshgrid(cu, cu, cu, indexing="ij"), dim=-1).reshape(-1, 3)
-- 
2.43.0


From 5e9561c46ea2d11690421864ae12598e193fa701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 093/133] fix: refinement failed for batches of a single
 pattern

---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 3f707ba..51d4dba 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -205,7 +205,7 @@ def orientation_grid_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
@@ -340,7 +340,7 @@ def orientation_grad_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From a716b2ce0b7f65e3afbd27338aa1f8af639b74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 094/133] fix: gradient refinement discarded improved
 orientations

---
 ebsdtorch/ebsd/refining.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 51d4dba..1eded0b 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -326,7 +326,8 @@ def orientation_grad_refinement(
 
             initial_dots = None
 
-            for step in range(n_iter):
+            # the last pass only evaluates the result of the last step
+            for step in range(n_iter + 1):
                 # apply the state of the lattice to the detector coordinates
                 detector_coords_rotated = qu_apply(
                     qu_current[:, None, :], detector_coords[None, :, :]
@@ -355,7 +356,10 @@ def orientation_grad_refinement(
                 )
 
                 if step == 0:
-                    initial_dots = -dot_products
+                    initial_dots = dot_products.detach()
+
+                if step == n_iter:
+                    break
 
                 # backpropagate the dot products
                 loss = -torch.mean(dot_products)
@@ -379,8 +383,8 @@ def orientation_grad_refinement(
 
             # update the experiment patterns
             # experiment_patterns.set_orientations(qu_current.detach(), indices_batch)
-            # only update if the final loss is better than the initial loss
-            updates = dot_products < initial_dots
+            # only update if the final dot product is better than the initial one
+            updates = dot_products > initial_dots
             experiment_patterns.set_orientations(
                 qu_current[updates].detach(),
                 indices_batch[updates],
-- 
2.43.0


From bd9de659b81dafc90679888791ccb9bf1359f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 095/133] fix: grid refinement failed for any match_dtype but
 float32

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 1eded0b..9724bae 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -223,7 +223,7 @@ def orientation_grid_refinement(
                 best_dots, best_indices = torch.max(dot_products, dim=-1)
 
                 # update the dots
-                dots[indices_batch, j] = best_dots
+                dots[indices_batch, j] = best_dots.to(dots.dtype)
 
                 # update center of the grid
                 qu_current = qu_augmented[
-- 
2.43.0


From 8890e1d0a9d4f75ba163377b409985fe9102963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 096/133] fix: grid refinement preferred orientations of high
 contrast over matching ones

---
 ebsdtorch/ebsd/refining.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9724bae..29c4620 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -170,6 +170,9 @@ def orientation_grid_refinement(
             # subtract the mean from the patterns
             exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
 
+            # normalize the patterns before dot product
+            exp_pats = torch.nn.functional.normalize(exp_pats, dim=-1)
+
             # get the current orientations
             # shape (N_EXP_PATS, 4)
             qu_current = experiment_patterns.get_orientations(indices_batch)
@@ -210,6 +213,9 @@ def orientation_grid_refinement(
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
 
+                # normalize the patterns before dot product
+                sim_pats = torch.nn.functional.normalize(sim_pats, dim=-1)
+
                 # use einsum to do the dot product
                 # (N_EXP_PATS, N_DETECTOR_PIXELS) & (N_EXP_PATS, N_SIM_PATS, N_DETECTOR_PIXELS)
                 dot_products = torch.einsum(
-- 
2.43.0


From 82152f372c72fb45d7e20876a55f5842fd2874f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 097/133] fix: interpolating no directions never ended

---
 ebsdtorch/ebsd/master_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index f80e7ee..4608297 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -176,6 +176,10 @@ class MasterPattern(Module):
             The interpolated master pattern pixel values.
 
         """
+        # nothing to interpolate (0 has no factors for the reshape below)
+        if coords_3D.numel() == 0:
+            return self.master_pattern.new_empty(coords_3D.shape[:-1])
+
         # norm
         if normalize_coords:
             coords_3D = coords_3D / torch.norm(coords_3D, dim=-1, keepdim=True)
-- 
2.43.0


From e646ddbd74ab3414427cb3302163d4472bc2511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 098/133] fix: refinement failed if a phase has no patterns

---
 ebsdtorch/ebsd/refining.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 29c4620..a0fd655 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -132,6 +132,15 @@ def orientation_grid_refinement(
     all_dots = []
 
     for i, indices in enumerate(phase_indices):
+        # a phase without any patterns
+        if len(indices) == 0:
+            all_dots.append(
+                torch.zeros(
+                    (experiment_patterns.n_patterns, n_iter),
+                    device=detector_coords.device,
+                )
+            )
+            continue
         mp = master_patterns[i]
         pb = progressbar(
             list(torch.split(indices, batch_size)),
@@ -299,6 +308,9 @@ def orientation_grad_refinement(
     phase_indices = experiment_patterns.get_indices_per_phase()
 
     for i, indices in enumerate(phase_indices):
+        # a phase without any patterns
+        if len(indices) == 0:
+            continue
         mp = master_patterns[i]
         pb = progressbar(
             list(torch.split(indices, batch_size)),
-- 
2.43.0


From cc85c58924631e23020a113602ec1590e6d00cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 099/133] fix: gradient refinement failed for a geometry with
 optimized components

---
 ebsdtorch/ebsd/refining.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index a0fd655..09035b4 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -302,7 +302,9 @@ def orientation_grad_refinement(
     ).view(-1, 3)
 
     # normalize the detector coordinates to be unit vectors
+    # (the geometry is not refined here, so no gradients with respect to it)
     detector_coords = detector_coords / detector_coords.norm(dim=-1, keepdim=True)
+    detector_coords = detector_coords.detach()
 
     # get a list of indices into the experiment patterns for each phase
     phase_indices = experiment_patterns.get_indices_per_phase()
-- 
2.43.0


From 39b9bf47857cf895a57ac1fc861d6d710fcc7e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 100/133] fix: pattern center fitting changed the patterns of
 the caller

---
 ebsdtorch/ebsd/fitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 20f5b21..cfdfa9a 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -395,11 +395,12 @@ def spatial_fft_pc_fitter(
             stride=virtual_binning,
         )
 
-    patterns -= patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
-    patterns /= patterns.view(B, -1).max(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
+    # (not in place: the patterns belong to the caller)
+    patterns = patterns - patterns.amin(dim=(-2, -1), keepdim=True)
+    patterns = patterns / patterns.amax(dim=(-2, -1), keepdim=True)
 
     if metric == "dot":
-        patterns -= patterns.view(B, -1).mean(dim=-1, keepdim=True).view(B, 1, 1, 1)
+        patterns = patterns - patterns.mean(dim=(-2, -1), keepdim=True)
 
     pixel_coords_det_ref, padding, padded_shape = get_3D_pixel_coords_with_periphery(
         detector_shape=(H, W),
-- 
2.43.0


From 6d290bfad071194293248b364b01eb2a0a7c44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 101/133] fix: pattern center fitting returned orientations of
 the wrong dictionary batch

---
 ebsdtorch/ebsd/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index cfdfa9a..af44a6e 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -509,7 +509,7 @@ def spatial_fft_pc_fitter(
 
             best_orientations[z_idx] = torch.where(
                 best_dots[z_idx] == batch_values,
-                batch_indices,
+                batch_indices + j,
                 best_orientations[z_idx],
             )
 
-- 
2.43.0


From 8fc6c0191c1452975f96c3bba741b2a71ee3e9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:48 +0000
Subject: [PATCH 102/133] fix: pattern center fitting mirrored the pattern
 center and searched shifts that wrap around

---
 ebsdtorch/ebsd/fitting.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index af44a6e..f0f3c9d 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -402,16 +402,24 @@ def spatial_fft_pc_fitter(
     if metric == "dot":
         patterns = patterns - patterns.mean(dim=(-2, -1), keepdim=True)
 
+    # a pattern center right of 0.5 is found left of the centered detector
     pixel_coords_det_ref, padding, padded_shape = get_3D_pixel_coords_with_periphery(
         detector_shape=(H, W),
         device=patterns.device,
         binning=virtual_binning,
-        pc_x_min=pc_x_min,
-        pc_x_max=pc_x_max,
-        pc_y_min=pc_y_min,
-        pc_y_max=pc_y_max,
+        pc_x_min=1.0 - pc_x_max,
+        pc_x_max=1.0 - pc_x_min,
+        pc_y_min=1.0 - pc_y_max,
+        pc_y_max=1.0 - pc_y_min,
     )
 
+    # shifts of the detector that stay within the enlarged patterns (all of the
+    # others wrap around) and where to find them in the cross correlation
+    lags_y = torch.arange(-padding[2], padding[3] + 1, device=patterns.device)
+    lags_x = torch.arange(-padding[0], padding[1] + 1, device=patterns.device)
+    rows = (lags_y + padded_shape[0] // 2) % padded_shape[0]
+    cols = (lags_x + padded_shape[1] // 2) % padded_shape[1]
+
     pattern_pad = torch.nn.functional.pad(patterns, padding, mode="constant", value=0.0)
     pattern_pad = pattern_pad.view(1, B, padded_shape[0], padded_shape[1])
 
@@ -430,10 +438,10 @@ def spatial_fft_pc_fitter(
     pc_z_vals = torch.linspace(pc_z_min, pc_z_max, pc_z_steps, device=patterns.device)
 
     best_dots = torch.zeros(
-        (pc_z_steps, B, padded_shape[0], padded_shape[1]), device=patterns.device
+        (pc_z_steps, B, len(lags_y), len(lags_x)), device=patterns.device
     )
     best_orientations = torch.zeros(
-        (pc_z_steps, B, padded_shape[0], padded_shape[1]),
+        (pc_z_steps, B, len(lags_y), len(lags_x)),
         dtype=torch.long,
         device=patterns.device,
     )
@@ -502,6 +510,8 @@ def spatial_fft_pc_fitter(
                 raise ValueError("Invalid metric.")
 
             # dots_full is shape (D, B, padded_shape[0], padded_shape[1])
+            dots_full = dots_full[:, :, rows[:, None], cols]
+
             # need to max-reduce over the D batch dimension and track which orientation won
             batch_values, batch_indices = torch.max(dots_full, dim=0)
 
@@ -527,8 +537,8 @@ def spatial_fft_pc_fitter(
     )
 
     best_pc_z = pc_z_vals[best_z_idx]
-    best_pc_y = 0.5 + float(best_y_idx - padding[2] - (H_bin + 1) // 2) / H_bin
-    best_pc_x = 0.5 + float(best_x_idx - padding[0] - (W_bin + 1) // 2) / W_bin
+    best_pc_y = 0.5 - float(lags_y[best_y_idx]) / H_bin
+    best_pc_x = 0.5 - float(lags_x[best_x_idx]) / W_bin
 
     # Get the best orientation for each pattern in the batch
     best_orientations_batch = best_orientations[best_z_idx, :, best_y_idx, best_x_idx]
-- 
2.43.0


From 8907166be13019fa036ca4e1e85fbe8f52c04085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:48 +0000
Subject: [PATCH 103/133] fix: pattern center fitting failed for patterns of
 odd width

---
 ebsdtorch/ebsd/fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index f0f3c9d..1a3def2 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -496,7 +496,10 @@ def spatial_fft_pc_fitter(
 
             if metric == "dot":
                 sim_pats_fft = rfft2(sim_pats, dim=(-2, -1))
-                dots_full = fftshift(irfft2(sim_pats_fft * pattern_fft), dim=(-2, -1))
+                # (the size of the output has to be given, or odd widths are cut)
+                dots_full = fftshift(
+                    irfft2(sim_pats_fft * pattern_fft, s=padded_shape), dim=(-2, -1)
+                )
             elif metric == "mi":
                 dots_full = cmif(
                     images_dst=sim_pats,
-- 
2.43.0


From 10255760f965a016cc9b857dea9eb00a75e06d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 104/133] fix: mutual information merged different pairs of
 bins

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..d6f17bc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -48,7 +48,7 @@ def mutual_information(
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
-- 
2.43.0


From 285c9185fdc9cd0cb446bdbbc5f9815b96cb8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 105/133] fix: mutual information of constant images failed

---
 ebsdtorch/utils/mutual_information.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d6f17bc..80f2387 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -42,8 +42,13 @@ def mutual_information(
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
     if normalize:
-        a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
-        b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
+        # images with a single value have no range, all pixels are in the first bin
+        a_range = a_maxvals - a_minvals
+        b_range = b_maxvals - b_minvals
+        a_range = torch.where(a_range > 0, a_range, torch.ones_like(a_range))
+        b_range = torch.where(b_range > 0, b_range, torch.ones_like(b_range))
+        a_bin = ((a - a_minvals) / a_range * n_bins * 0.999999).long()
+        b_bin = ((b - b_minvals) / b_range * n_bins * 0.999999).long()
     else:
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
-- 
2.43.0


From ac2f559b650140dc831f2c181709e375e04c8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 106/133] fix: binned mutual information put pixels of value 1
 into wrong bins

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 80f2387..c4087b7 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -178,8 +178,9 @@ def binned_nmi(
     x = x.view(-1)
     y = y.view(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # the last bin includes 1
+    x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(max=binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
-- 
2.43.0


From 289f75d69dd230476d112592cb879dafd9b54187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 107/133] fix: cross mutual information lost joint bins of a
 single pixel

---
 ebsdtorch/utils/mutual_information.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c4087b7..2eb2235 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -495,7 +495,7 @@ def cmif(
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
@@ -506,7 +506,7 @@ def cmif(
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
                 joint_p = cross_corr_real / tally_joint
                 joint_p_log_p = torch.where(
@@ -579,7 +579,7 @@ def cmif(
             cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
@@ -609,7 +609,7 @@ def cmif(
             cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
-- 
2.43.0


From ee4986cbbab38b2ce97c6a1c8aa4025890b04a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 108/133] fix: cross mutual information cut off a column of odd
 widths

---
 ebsdtorch/utils/mutual_information.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 2eb2235..79f8e4b 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -451,11 +451,17 @@ def cmif(
         else:
             # first compute the marginal histograms
             marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :]),
+                irfft2(
+                    src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :],
+                    s=(h1, w1),
+                ),
                 dim=(-2, -1),
             )
             marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :]),
+                irfft2(
+                    src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :],
+                    s=(h1, w1),
+                ),
                 dim=(-2, -1),
             )
 
@@ -493,7 +499,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
@@ -504,7 +510,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
@@ -576,7 +582,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 0.5] = 0.0
@@ -606,7 +612,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 0.5] = 0.0
-- 
2.43.0


From f6b6f1f9464c5dd7f7f6342a6e48e6cccfa33d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 109/133] fix: cross mutual information counted pixels outside
 of the indicator images

---
 ebsdtorch/utils/mutual_information.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 79f8e4b..eaf7daa 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -405,9 +405,10 @@ def cmif(
     else:
         src_ind = src_ind.view(-1, 1, h1, w1)
 
-    # add the indicator images to the beginning of the levels
-    dst_levels = torch.cat((dst_ind, dst_levels), dim=1)
-    src_levels = torch.cat((src_ind, src_levels), dim=1)
+    # add the indicator images to the beginning of the levels, only pixels within
+    # the indicator images belong to a level
+    dst_levels = torch.cat((dst_ind, dst_levels * dst_ind), dim=1)
+    src_levels = torch.cat((src_ind, src_levels * src_ind), dim=1)
 
     # calculate the 2D FFT of the indicator images
     dst_levels_fft = rfft2(dst_levels.float())
-- 
2.43.0


From bfc62fdd309bd2921885384ae71a26a0ffc056d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 110/133] fix: cross mutual information dropped pixels of value
 1

---
 ebsdtorch/utils/mutual_information.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index eaf7daa..31fa5c1 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -378,7 +378,7 @@ def cmif(
     images_dst = images_dst.view(-1, 1, h1, w1)
     images_src = images_src.view(-1, 1, h1, w1)
 
-    dst_levels = (bins_dst * images_dst).byte().repeat(1, bins_dst, 1, 1)
+    dst_levels = (bins_dst * images_dst * 0.99999).byte().repeat(1, bins_dst, 1, 1)
     dst_levels = (
         dst_levels
         == torch.arange(bins_dst, dtype=torch.uint8, device=images_dst.device)[
@@ -386,7 +386,7 @@ def cmif(
         ]
     )
 
-    src_levels = (bins_src * images_src).byte().repeat(1, bins_src, 1, 1)
+    src_levels = (bins_src * images_src * 0.99999).byte().repeat(1, bins_src, 1, 1)
     src_levels = (
         src_levels
         == torch.arange(bins_src, dtype=torch.uint8, device=images_src.device)[
-- 
2.43.0


From 31cac73567155335cfa532a0cc6dcf1508a4cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 111/133] fix: cross mutual information failed for more than 8
 bins

---
 ebsdtorch/utils/mutual_information.py | 71 ++++++++++++++++++---------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 31fa5c1..d4b99a6 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -418,20 +418,38 @@ def cmif(
     if bins_src > 8 or bins_dst > 8:
         if constant_marginal:
             # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src).byte()
-            dst_discrete = (bins_dst * images_dst).byte()
+            src_discrete = (bins_src * images_src * 0.99999).long()
+            dst_discrete = (bins_dst * images_dst * 0.99999).long()
 
-            # calculate the marginal histograms
-            marg_hists_dst = torch.histc(
-                dst_discrete[src_ind].float(), bins=bins_dst, min=0, max=bins_dst - 1
+            # have to use scatter instead
+            marg_hists_dst = torch.zeros(
+                images_dst.shape[0], bins_dst, device=images_dst.device
             )
-            marg_hists_src = torch.histc(
-                src_discrete[dst_ind].float(), bins=bins_src, min=0, max=bins_src - 1
+            marg_hists_src = torch.zeros(
+                images_src.shape[0], bins_src, device=images_src.device
+            )
+
+            # reshape to be (B, n_bins, -1)
+            src_discrete = src_discrete.view(-1, h1 * w1)
+            dst_discrete = dst_discrete.view(-1, h1 * w1)
+
+            # scatter the joint histogram
+            marg_hists_dst = marg_hists_dst.scatter_(
+                -1,
+                dst_discrete,
+                1,
+                reduce="add",
+            )
+            marg_hists_src = marg_hists_src.scatter_(
+                -1,
+                src_discrete,
+                1,
+                reduce="add",
             )
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum()
-            marg_hists_dst /= marg_hists_dst.sum()
+            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -446,29 +464,36 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p)
-            ent_dst = -torch.sum(marg_dst_p_log_p)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
 
         else:
-            # first compute the marginal histograms
+            # first compute the marginal histograms of every pair of images
+            # (B, C, bins, H, W)
             marg_hists_dst = fftshift(
                 irfft2(
-                    src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :],
+                    src_levels_fft[None, :, 0:1, :, :]
+                    * dst_levels_fft[:, None, 1:, :, :],
                     s=(h1, w1),
                 ),
                 dim=(-2, -1),
             )
             marg_hists_src = fftshift(
                 irfft2(
-                    src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :],
+                    src_levels_fft[None, :, 1:, :, :]
+                    * dst_levels_fft[:, None, 0:1, :, :],
                     s=(h1, w1),
                 ),
                 dim=(-2, -1),
             )
 
+            # where the bin occupancy was less than 1, set it to zero
+            marg_hists_dst[marg_hists_dst < 0.5] = 0.0
+            marg_hists_src[marg_hists_src < 0.5] = 0.0
+
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
+            marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -483,8 +508,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=2)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
 
         # total number of pixel pair values is the olap value so we can normalize the histogram bars in the joint as they come
         ent_joint = torch.zeros(
@@ -494,8 +519,8 @@ def cmif(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
         )
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 # print which chunk begin and end for each
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
@@ -506,8 +531,8 @@ def cmif(
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
@@ -515,7 +540,7 @@ def cmif(
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
-                joint_p = cross_corr_real / tally_joint
+                joint_p = cross_corr_real / tally_joint[:, :, None, None]
                 joint_p_log_p = torch.where(
                     joint_p > 0.0,
                     joint_p * torch.log(joint_p),
-- 
2.43.0


From 06f8f28d2009a8aa1746a15161a38f41d758b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 112/133] fix: normalization of cross mutual information failed
 for constant marginals

---
 ebsdtorch/utils/mutual_information.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d4b99a6..caee29f 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -680,9 +680,9 @@ def cmif(
 
     # mutual information is the sum of the marginal entropies minus the joint entropy
     if constant_marginal:
-        mi = ent_dst[:, None, None, None] + ent_src[None, :, None, None] - ent_joint
-    else:
-        mi = ent_dst + ent_src - ent_joint
+        ent_dst = ent_dst[:, None, None, None]
+        ent_src = ent_src[None, :, None, None]
+    mi = ent_dst + ent_src - ent_joint
 
     # replace any NaNs or Infs or Negatives with zeros
     mi[torch.isnan(mi) | torch.isinf(mi) | (mi < 0.0)] = 0.0
-- 
2.43.0


From 801cb05f926e424cda0bc63a8349fe8e2cf5cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 113/133] fix: Monte Carlo simulation lost electrons that leave
 into the same bin at once

---
 ebsdtorch/simulation/monte_carlo.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 2f2ca0a..59111c1 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -226,12 +226,17 @@ def bse_sim_mc(
         exit_direction_indices = exit_direction_indices[valid_mask]
 
         # push MC batch into accumulator
-        accumulator[
-            exit_energy_indices,
-            exit_depth_indices,
-            exit_direction_indices[..., 0],
-            exit_direction_indices[..., 1],
-        ] += 1
+        # (several electrons of a batch can leave into the same bin)
+        accumulator.index_put_(
+            (
+                exit_energy_indices.long(),
+                exit_depth_indices.long(),
+                exit_direction_indices[..., 0].long(),
+                exit_direction_indices[..., 1].long(),
+            ),
+            torch.ones_like(exit_energy_indices, dtype=accumulator.dtype),
+            accumulate=True,
+        )
 
         # reset if the ticks are greater than the max
         ticks += 1
-- 
2.43.0


From a59090eb21101c05f4933cd6fd286892fbbd11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 114/133] fix: Monte Carlo simulation made one step more than
 the maximum

---
 ebsdtorch/simulation/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 59111c1..abdc1ba 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -238,9 +238,9 @@ def bse_sim_mc(
             accumulate=True,
         )
 
-        # reset if the ticks are greater than the max
+        # reset after the last step
         ticks += 1
-        reset_mask = (ticks > n_max_steps) | exited_sample
+        reset_mask = (ticks >= n_max_steps) | exited_sample
 
         # reset the energy, depth, and direction of the backscattered electrons
         ticks[reset_mask] = 0
-- 
2.43.0


From 8c35a4be05b19c1e723459d7b32d03bb57aa5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 115/133] fix: Monte Carlo simulation revived electrons that
 had lost all energy

---
 ebsdtorch/simulation/monte_carlo.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index abdc1ba..cf7d9e7 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -194,13 +194,16 @@ def bse_sim_mc(
         # calculate the new depth of the electrons after scattering event
         depths += step_nm * current_directions[..., 2]
 
-        # find backscattered electrons
-        exited_sample = depths < 0
-
         # calculate the new energy of the electrons after scattering event
         # ---------- Equation 3.17 of Joy's book ----------
         energies += step_nm * unit_cell_density_rho * de_ds
 
+        # electrons without energy have been stopped by the sample
+        stopped = energies <= 0
+
+        # find backscattered electrons
+        exited_sample = (depths < 0) & ~stopped
+
         # find the bin indices
         exit_depth_indices = (
             ((escape_depth[exited_sample]) / depth_max) * n_exit_depth_bins
@@ -240,7 +243,7 @@ def bse_sim_mc(
 
         # reset after the last step
         ticks += 1
-        reset_mask = (ticks >= n_max_steps) | exited_sample
+        reset_mask = (ticks >= n_max_steps) | exited_sample | stopped
 
         # reset the energy, depth, and direction of the backscattered electrons
         ticks[reset_mask] = 0
-- 
2.43.0


From 5fd900b0b483506a55970e13da737370b7033902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 116/133] fix: linear interpolation in depth used the next
 interval

---
 ebsdtorch/crystallography/ebsd_mc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 9753a3d..f853e40 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -409,6 +409,8 @@ class MonteCarloSimulator:
 
         if extrapolate == "error":
             # Check for out-of-range indices
+            # x is in the interval that ends at the index
+            indices = torch.clamp(indices - 1, min=0)
             if torch.any(indices < 0) or torch.any(indices >= m.shape[-1]):
                 raise ValueError("(some) interpolation indices out of range")
         elif extrapolate == "const":
-- 
2.43.0


From 71fcfc2fd075dc40cc825584cb6b96d02642f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 117/133] fix: resampling in depth failed for bin sizes that
 are not exact

---
 ebsdtorch/crystallography/ebsd_mc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index f853e40..9cde1db 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -506,13 +506,11 @@ class MonteCarloSimulator:
         bin_edges = (
             torch.exp(
                 torch.arange(
-                    0,
-                    self.n_depth_bins * self.binsize_exit_depth
-                    + self.binsize_exit_depth,
-                    self.binsize_exit_depth,
+                    self.n_depth_bins + 1,
                     device=histogram.device,
                     dtype=torch.float32,
                 )
+                * self.binsize_exit_depth
             )
             - 1.0
         )
-- 
2.43.0


From a231a1263c6c6fd6a683ed01d5971fef7cf15b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:25 +0000
Subject: [PATCH 118/133] fix: extended exponents of Wigner d were scaled with
 an underflowing factor

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 8973db9..b4d6948 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -66,8 +66,8 @@ def xnum_to_fp(x_num: Tuple[Tensor, Tensor]) -> torch.Tensor:
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIG = 2.0**IND
-    BIGI = 2.0 ** (-IND)
+    BIG = torch.pow(2.0, IND.double())
+    BIGI = torch.pow(2.0, -IND.double())
     return torch.where(ix == 0, x, torch.where(ix < 0, x * BIGI, x * BIG))
 
 
@@ -96,7 +96,7 @@ def xnum_sum(
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIGI = 2.0 ** (-IND)
+    BIGI = torch.pow(2.0, -IND.double())
 
     id = ix - iy
     z = torch.where(
-- 
2.43.0


From e3de5f6289bac76edbe2c7a997714b6921692053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:25 +0000
Subject: [PATCH 119/133] fix: Wigner d at pi used the powers for pi / 2

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index b4d6948..47da9cd 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -325,7 +325,7 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
-    if beta.item() == torch.pi:
+    if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
             torch.exp(
                 0.5
-- 
2.43.0


From 78fa0e558c81d0ec475089929093ede1b9f9ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 120/133] fix: Wigner d at beta = 0 was not a number

---
 ebsdtorch/harmonics/wigner_d_logspace.py | 4 ++++
 ebsdtorch/harmonics/wigner_d_xnum.py     | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..e9f9ccf 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -150,6 +150,10 @@ def log_powers_trig_half_beta(
     # Compute the powers
     cos_powers = powers * math.log(math.cos(beta / 2.0))
     sin_powers = powers * math.log(math.sin(beta / 2.0))
+
+    # the power 0 of 0 is 1 (for beta = 0)
+    cos_powers[:1] = 0.0
+    sin_powers[:1] = 0.0
     return cos_powers, sin_powers
 
 
diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 47da9cd..88d5d6b 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -155,7 +155,8 @@ def trig_powers_xnum(
 
     # log2 of magnitude of cos(beta/2) and sin(beta/2)
     lmch = torch.log2(torch.abs(ch))
-    lmsh = torch.log2(torch.abs(sh))
+    # (for beta = 0 all powers of the sine but the first are 0)
+    lmsh = torch.log2(torch.where(sh == 0, 1.0, torch.abs(sh)))
 
     lmch_sign = torch.sign(lmch)
     lmsh_sign = torch.sign(lmsh)
@@ -175,6 +176,7 @@ def trig_powers_xnum(
     # calculate the x-number mantissas
     cos_powers_x = torch.pow(2.0, log_cos_powers_x * lmch_sign)
     sin_powers_x = torch.pow(2.0, log_sin_powers_x * lmsh_sign)
+    sin_powers_x = torch.where((sh == 0) & (powers > 0), 0.0, sin_powers_x)
 
     # call x_norm to normalize the x-numbers
     cos_powers_x, cos_powers_x_i = xnum_norm((cos_powers_x, cos_powers_x_i))
-- 
2.43.0


From d3978c9589178e48aac497d00af849a275270878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 121/133] fix: Wigner d with extended exponents overflowed for
 degrees above 1023

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 38 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 88d5d6b..da1818d 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -327,39 +327,39 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
+    # (as an x-number, it exceeds the range of float64 for large degrees)
+    e_mn_log = (0.5 / math.log(2.0)) * (
+        torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
+        - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
+        - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
+    )
+    e_mn_i = torch.floor(e_mn_log / 460.0)
+    e_mn = torch.pow(2.0, e_mn_log - 460.0 * e_mn_i)
+    e_mn_i = e_mn_i.to(torch.int32)
     if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
-            )
-            * half_power_xnum[0][mmn_coords[:, 1]]
+            e_mn * half_power_xnum[0][mmn_coords[:, 1]]
+        )
+        wigner_xnum[1][first_seed_indices] = (
+            half_power_xnum[1][mmn_coords[:, 1]] + e_mn_i
         )
-        wigner_xnum[1][first_seed_indices] = half_power_xnum[1][mmn_coords[:, 1]]
     else:
         wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
-            )
+            e_mn
             * cos_powers_xnum[0][mmn_coords[:, 1] + mmn_coords[:, 2]]
             * sin_powers_xnum[0][mmn_coords[:, 1] - mmn_coords[:, 2]]
         )
         wigner_xnum[1][first_seed_indices] = (
             cos_powers_xnum[1][mmn_coords[:, 1] + mmn_coords[:, 2]]
             + sin_powers_xnum[1][mmn_coords[:, 1] - mmn_coords[:, 2]]
+            + e_mn_i
         )
 
+    # the product of three mantissas can be too large by two exponents
     wigner_xnum[0][first_seed_indices], wigner_xnum[1][first_seed_indices] = xnum_norm(
-        (wigner_xnum[0][first_seed_indices], wigner_xnum[1][first_seed_indices])
+        xnum_norm(
+            (wigner_xnum[0][first_seed_indices], wigner_xnum[1][first_seed_indices])
+        )
     )
 
     coords = torch.stack((mm, mm - 1, nn - 1), dim=-1)
-- 
2.43.0


From 2533422f7ccdb61fc412fb1dd109a437a5bc513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 122/133] fix: lookup of Wigner d ignored the symmetry of
 negative orders

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 33 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index da1818d..585fddd 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -552,10 +552,31 @@ def retrieve_wigner_d(
     m_new = torch.where(mask_mn_swap, n, m)
     n_new = torch.where(mask_mn_swap, m, n)
 
-    prefactor = torch.where(
-        mask_mn_swap,
-        (-1.0) ** ((m_new - n_new) % 2),
-        1.0,
+    both_neg_mask = (m_new < 0) & (n_new < 0)
+    only_m_neg_mask = (m_new < 0) & (n_new >= 0)
+    only_n_neg_mask = (n_new < 0) & (m_new >= 0)
+
+    prefactor = (
+        torch.where(
+            both_neg_mask,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_m_neg_mask,
+            (-1.0) ** ((l - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_n_neg_mask,
+            (-1.0) ** ((l + m_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            mask_mn_swap,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
     )
 
     if swap_mn:
@@ -563,7 +584,9 @@ def retrieve_wigner_d(
 
     return (
         wigner_d_values[
-            (((l * (l + 1)) // 2 * (l + 2)) // 3) + ((m_new * (m_new + 1)) // 2) + n_new
+            (((l * (l + 1)) // 2 * (l + 2)) // 3)
+            + ((torch.abs(m_new) * (torch.abs(m_new) + 1)) // 2)
+            + torch.abs(n_new)
         ]
         * prefactor
     )
-- 
2.43.0


From 19853d17c9c0c7fc4a5a6691e2b703f0a601c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 123/133] fix: fast spherical cross correlation ignored
 negative orders

---
 ebsdtorch/harmonics/sht_cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/harmonics/sht_cc.py b/ebsdtorch/harmonics/sht_cc.py
index 554eae0..718a04e 100644
--- a/ebsdtorch/harmonics/sht_cc.py
+++ b/ebsdtorch/harmonics/sht_cc.py
@@ -192,7 +192,7 @@ def rs2cc_fast_(
         raise ValueError(f"Batch dimensions of f {b1} and g {b2} are not broadcastable")
 
     m_inds_half = torch.arange(1, B, dtype=torch.int32, device=f.device)
-    # augment g and f with zeros for the negative m values
+    # augment g with the negative n values
     g_n_aug = torch.cat(
         [
             g[:, 1:, :].flip(1) * ((-1.0) ** m_inds_half.flip(0))[None, :, None],
@@ -202,11 +202,11 @@ def rs2cc_fast_(
     )
 
     f_lmkb = torch.einsum("lmk,bml->blmk", d_lmk[:, (B - 1) :, :], f)
-    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk[:, :, (B - 1) :], g.conj())
+    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk, g_n_aug)
     cc = torch.einsum("blmk,blkn->bmkn", f_lmkb, g_lknb)
 
     # Need to do fftshift so that the low frequencies are at the periphery
-    cc = ifftshift(cc, dim=(-2))
+    cc = ifftshift(cc, dim=(-1, -2))
 
     # dim=(..., -3) means the half dimension is the -3 dimension (m)
     cc = irfftn(cc, s=(2 * B - 1,) * 3, dim=(-1, -2, -3), norm="forward")
-- 
2.43.0


From 7e3575cb77836a9a9193528b606a43a768b8fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 124/133] fix: inverse spherical harmonic transform failed for
 slices of coefficients

---
 ebsdtorch/harmonics/sht.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht.py b/ebsdtorch/harmonics/sht.py
index 3857458..435132c 100644
--- a/ebsdtorch/harmonics/sht.py
+++ b/ebsdtorch/harmonics/sht.py
@@ -280,7 +280,7 @@ class DLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            Psi.reshape(b, -1),
             self.D,
         ).reshape(b, 2 * L - 1, 2 * L)
 
@@ -443,7 +443,7 @@ class RDLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            Psi.reshape(b, -1),
             self.D,
         ).reshape(b, L, 2 * L)
 
-- 
2.43.0


From 607d08ead1d96ae7ae5a02e71e1d3c4629d745a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 125/133] fix: disorientation angles lost the shape of the data

disori_angle_laue supports any number of leading dimensions, but returned
a flat list of angles for data of two or more of them (a map of
orientations) and a list of one angle for a single pair.
---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 6 ++++--
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 02279e4..c173c30 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -158,7 +158,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
         laue_id_2: laue group ID of quats2
 
     Returns:
-        disorientation quaternion of shape (..., 4)
+        disorientation angles of shape (...)
 
     """
 
@@ -200,4 +200,6 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+    angles = 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+
+    return angles.reshape(data_shape[:-1])
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index a6dd6e1..74a4e6a 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -426,7 +426,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
         laue_id_2: laue group ID of quats2
 
     Returns:
-        disorientation quaternion of shape (..., 4)
+        disorientation angles of shape (...)
 
     """
 
@@ -468,7 +468,9 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+    angles = 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+
+    return angles.reshape(data_shape[:-1])
 
 
 @torch.jit.script
-- 
2.43.0


From e8ac442569f7d9bed949b97b9f8da68c40c003e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 126/133] fix: disorientations of an empty set were refused

An empty selection (a phase without pixels) raised: the number of pairs of
operators cannot be inferred when there are no quaternions.
---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 6 +++---
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index c173c30..c5fe6da 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -58,7 +58,7 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -127,7 +127,7 @@ def disorientation_naive(
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -195,7 +195,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     )
 
     # flatten along the laue group dimensions
-    equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
+    equivalent_quat_pos_real = equivalent_quat_pos_real.flatten(1, 2)
 
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 74a4e6a..f26b967 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -395,7 +395,7 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -463,7 +463,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     )
 
     # flatten along the laue group dimensions
-    equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
+    equivalent_quat_pos_real = equivalent_quat_pos_real.flatten(1, 2)
 
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
-- 
2.43.0


From c4e0a2accca714a3bc48a051da8e1b9b0b110afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:55 +0000
Subject: [PATCH 127/133] fix: a geometry restored from a state dict could not
 be optimised

The mask of optimisable parameters is restored, the flag derived from it
was not: the geometry kept the gradients of the SE3 vector switched off.
---
 ebsdtorch/ebsd/geometry.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index cc5700a..d57f7fc 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -226,8 +226,14 @@ class EBSDGeometry(Module):
         rotation_mask = torch.tensor(opt_rots).bool()
         translation_mask = torch.tensor(opt_shifts).bool()
         self.register_buffer("mask", torch.cat([rotation_mask, translation_mask]))
-        # if the mask has no True values, set opt_se3 to False
-        self.opt_se3 = torch.any(self.mask).item()
+
+    @property
+    def opt_se3(self) -> bool:
+        """
+        Whether any SE3 parameter is optimizable. Derived from the mask, which is
+        part of the state of the module and can be loaded.
+        """
+        return torch.any(self.mask).item()
 
     def set_optimizable_se3_params(
         self,
@@ -250,9 +256,6 @@ class EBSDGeometry(Module):
         if opt_shifts is not None:
             self.mask[3:] = torch.tensor(opt_shifts).bool()
 
-        # update the opt_se3 flag
-        self.opt_se3 = torch.any(self.mask).item()
-
     def get_detector2sample(self) -> Tuple[Tensor, Tensor]:
         """
         Get the SE3 transformation matrix from detector to sample.
-- 
2.43.0


From 2578fc67726709c9d89edde612b08acbcb9e1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:00 +0000
Subject: [PATCH 128/133] fix: a master pattern loaded over another one kept
 its binned intensities

Loading a state dict replaces the intensities in place; the pattern binned
for virtual binning is derived from them and was kept from before.
---
 ebsdtorch/ebsd/master_pattern.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 4608297..bd5f646 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -93,6 +93,11 @@ class MasterPattern(Module):
         self.binning_factor = None
         self.factor_dict = {}
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        super()._load_from_state_dict(*args, **kwargs)
+        # the binned pattern belongs to the previous intensities
+        self.master_pattern_binned = None
+
     def bin(
         self,
         binning_factor: int,
-- 
2.43.0


From 881ddd783faa6e65bfe1ab882f9e9ae2162b805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 129/133] fix: gradients of the square Lambert projection were
 not numbers at the poles

A single pixel that points to a pole (within 2e-4 rad in single precision)
made the gradient of all parameters not a number: gradient refinement
left such orientations as they were.
---
 ebsdtorch/s2_and_so3/sphere.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index b79ba64..5cd1338 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -73,8 +73,17 @@ def rosca_lambert(pts: Tensor) -> Tensor:
 
     # floating point error can yield z above 1.0 example for float32 is:
     # xyz = [1.7817265e-04, 2.8403841e-05, 1.0000001e0]
-    # so we have to clamp to avoid sqrt of negative number
-    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=0.0))
+    # and leaves few digits of 1 - |z| near the poles, so it is taken from x and
+    # y instead: 2 (1 - |z|) = 2 (x^2 + y^2) / (1 + |z|). The poles themselves
+    # have no slope: they are kept out of the square root and the arctangent
+    height = torch.clamp(
+        2.0 * (x * x + y * y) / (1.0 + torch.abs(z)), max=2.0
+    )
+    off_pole = height > 1e-30
+    factor = torch.where(
+        off_pole, torch.sqrt(torch.where(off_pole, height, 1.0)), 0.0
+    )
+    x, y = torch.where(off_pole, x, 1.0), torch.where(off_pole, y, 0.0)
 
     cond = torch.abs(y) <= torch.abs(x)
     big = torch.where(cond, x, y)
@@ -157,8 +166,17 @@ def rosca_lambert_side_by_side(pts: Tensor) -> Tensor:
 
     # floating point error can yield z above 1.0 example for float32 is:
     # xyz = [1.7817265e-04, 2.8403841e-05, 1.0000001e0]
-    # so we have to clamp to avoid sqrt of negative number
-    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=0.0))
+    # and leaves few digits of 1 - |z| near the poles, so it is taken from x and
+    # y instead: 2 (1 - |z|) = 2 (x^2 + y^2) / (1 + |z|). The poles themselves
+    # have no slope: they are kept out of the square root and the arctangent
+    height = torch.clamp(
+        2.0 * (x * x + y * y) / (1.0 + torch.abs(z)), max=2.0
+    )
+    off_pole = height > 1e-30
+    factor = torch.where(
+        off_pole, torch.sqrt(torch.where(off_pole, height, 1.0)), 0.0
+    )
+    x, y = torch.where(off_pole, x, 1.0), torch.where(off_pole, y, 0.0)
 
     cond = torch.abs(y) <= torch.abs(x)
     big = torch.where(cond, x, y)
-- 
2.43.0


From 9b86628a72f40c0b2c7e931c48420c406ab96287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 130/133] fix: the logarithm of a quaternion motion had no
 gradient at rest

The angle came from the arc cosine of the real part, whose slope is
infinite for no rotation, and which rounds small angles to zero.
---
 ebsdtorch/lie_algebra/se3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index 4e40417..bcfc6f0 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -70,7 +70,7 @@ arXiv:1606.05285.
 from typing import Tuple
 import torch
 from torch import Tensor
-from ebsdtorch.s2_and_so3.orientations import ax2qu, qu2ax
+from ebsdtorch.s2_and_so3.orientations import ax2qu
 
 
 @torch.jit.script
@@ -324,9 +324,13 @@ def se3_log_map_quat(quats: Tensor, tvecs: Tensor) -> Tensor:
 
     """
     data_shape = quats.shape[:-1]
-    axis_angle = qu2ax(quats)
-
-    omegas = axis_angle[..., :3] * axis_angle[..., 3:4]
+    # the vector part is sin(theta / 2) * axis, flipped for negative real parts
+    # so that theta is in [0, pi], theta / sin(theta / 2) goes to 2 at zero
+    vec = quats[..., 1:] * torch.where(quats[..., :1] < 0, -1.0, 1.0)
+    sin_half = torch.linalg.norm(vec, dim=-1, keepdim=True)
+    theta = 2.0 * torch.atan2(sin_half, torch.abs(quats[..., :1]))
+    small = sin_half < 1e-20
+    omegas = vec * torch.where(small, 2.0, theta / torch.where(small, 1.0, sin_half))
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, tvecs[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 4d4ae08d667ec22e7fab12ac9c6ff2c97478bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 131/133] fix: atomic weight of berkelium (its longest lived
 isotope has the mass number 247)

---
 ebsdtorch/crystallography/unit_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index f6af13b..becfa00 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -119,7 +119,7 @@ atomic_weights_dict = atomic_weights = torch.tensor(
             "Pu": 244.0,
             "Am": 243.0,
             "Cm": 247.0,
-            "Bk": 251.0,
+            "Bk": 247.0,
             "Cf": 252.0,
         }.values()
     ],
-- 
2.43.0


From 0221e60eeee7ff5093052f2186723997c82032a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:24 +0000
Subject: [PATCH 132/133] fix: pattern center fitting lost orientations with
 negative scores

---
 ebsdtorch/ebsd/fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 1a3def2..a771404 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -437,8 +437,11 @@ def spatial_fft_pc_fitter(
 
     pc_z_vals = torch.linspace(pc_z_min, pc_z_max, pc_z_steps, device=patterns.device)
 
-    best_dots = torch.zeros(
-        (pc_z_steps, B, len(lags_y), len(lags_x)), device=patterns.device
+    # the scores can be negative, so they are not compared with zero
+    best_dots = torch.full(
+        (pc_z_steps, B, len(lags_y), len(lags_x)),
+        float("-inf"),
+        device=patterns.device,
     )
     best_orientations = torch.zeros(
         (pc_z_steps, B, len(lags_y), len(lags_x)),
-- 
2.43.0


From 51a4051e587ffe8bb0d9d110e806ef6fb0d53dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:05 +0000
Subject: [PATCH 133/133] fix: covariance of a batch far from the previous mean
 lost its digits

---
 ebsdtorch/utils/pca_covmat.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index 8f4870e..f2db84c 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -81,14 +81,18 @@ def update_covmat(
     # update the global mean
     new_mean = (current_mean * current_obs + batch_mean * N) / (current_obs + N)
 
-    # compute the deltas
-    delta = data_new.to(delta_dtype) - (current_mean).to(delta_dtype)
-    delta_prime = data_new.to(delta_dtype) - (new_mean).to(delta_dtype)
+    # compute the deltas: from the mean of the batch, and of that mean from the
+    # previous one (those of the data from the previous mean would cancel out and
+    # leave few digits when the batch is far from it, as the first one often is)
+    delta = data_new.to(delta_dtype) - (batch_mean).to(delta_dtype)
+    delta_mean = batch_mean.to(delta_dtype) - (current_mean).to(delta_dtype)
 
     # update the running covariance matrix
-    current_covmat += torch.einsum("ij,ik->jk", delta, delta_prime).to(
-        current_covmat.dtype
-    )
+    weight = (current_obs * N).to(delta_dtype) / (current_obs + N).to(delta_dtype)
+    current_covmat += (
+        torch.einsum("ij,ik->jk", delta, delta)
+        + weight * torch.einsum("ij,ik->jk", delta_mean, delta_mean)
+    ).to(current_covmat.dtype)
 
     # update the number of observations and mean
     current_obs += N
-- 
2.43.0

