From 21aecc141920c0ae4f7866c832ef77f3a5172614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/48] fix: accept a dict of scalar joint values on serial
 chains

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..7cc9a1f 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,7 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
-- 
2.43.0


From f5154166b076ff323d4360e0b19a010be34df5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 02/48] fix: accept a dict of joint values in
 SerialChain.jacobian as documented

---
 src/pytorch_kinematics/chain.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 7cc9a1f..4c3013c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -769,10 +769,7 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
-            th = torch.tensor(th, dtype=self.dtype, device=self.device)
-        if len(th.shape) <= 1:
-            th = th.reshape(1, -1)
+        th = torch.atleast_2d(self.ensure_tensor(th))
 
         if locations is None and not ret_eef_pose:
             return self.jacobian_tensor(th)
-- 
2.43.0


From 008cf423f143752596a3ad5225eb9d4ee0d56bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 03/48] fix: reject a wrong number of joint values instead of
 broadcasting one value to all joints

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 4c3013c..61d95d6 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -521,6 +521,8 @@ class Chain:
 
         Returns: (num_frames, B, 4, 4) tensor of all frame transforms
         """
+        if th.shape[-1] != self.n_joints:
+            raise ValueError(f'Expected {self.n_joints} joint values, got {th.shape[-1]}.')
         if th.requires_grad and analytical_grad:
             # Compute FK on detached th (no autograd graph needed for forward)
             T_world_link = _fk_impl(
-- 
2.43.0


From 991ed6ea65eb7903f44e9c2fc169801f1ad16509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 04/48] fix: get_joints(exclude_fixed=False) returns the fixed
 joints too

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 61d95d6..69ef149 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -407,10 +407,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From 99a81ea0e3818f6e8dede5dd6502cb1c43ef6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 05/48] fix: do not hand out the cached list of joint names,
 which callers may modify

---
 src/pytorch_kinematics/chain.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 69ef149..1fc1d7f 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -417,7 +417,6 @@ class Chain:
         joints = self._get_joints(self._root, exclude_fixed=exclude_fixed)
         return joints
 
-    @lru_cache()
     def get_joint_parameter_names(self, exclude_fixed=True):
         names = []
         for j in self.get_joints(exclude_fixed=exclude_fixed):
-- 
2.43.0


From 16d0aa0efe90a050eb41ad4376554349e42464c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 06/48] fix: build robots that have a single link and no joints

---
 src/pytorch_kinematics/sdf.py  | 2 ++
 src/pytorch_kinematics/urdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..20e56a7 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -90,6 +90,8 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    # a robot without joints consists of its single link
+    root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..762c80c 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -112,6 +112,8 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    # a robot without joints consists of its single link
+    root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From 2f9284897e25b785427f5341254c4666d1bc6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 07/48] fix: SerialChain keeps the source chain's dtype and
 device, and chains convert offsets to their dtype

---
 src/pytorch_kinematics/chain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 1fc1d7f..863d9c1 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -274,12 +274,12 @@ class Chain:
             if root.link.offset is None:
                 self.link_offsets.append(None)
             else:
-                self.link_offsets.append(root.link.offset.get_matrix())
+                self.link_offsets.append(root.link.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if root.joint.offset is None:
                 self.joint_offsets.append(None)
             else:
-                self.joint_offsets.append(root.joint.offset.get_matrix())
+                self.joint_offsets.append(root.joint.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if is_fixed:
                 self.joint_indices.append(-1)
@@ -658,6 +658,9 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        # keep the source chain's dtype and device unless others are requested
+        kwargs.setdefault('dtype', chain.dtype)
+        kwargs.setdefault('device', chain.device)
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From 34a1b7b4af2d26b9f4a8bcc9a4f8e0bbe811053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 08/48] fix: quaternion_from_euler must not halve the caller's
 angles in place

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..f6b428a 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,9 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From 271c1485c61331179eedc05b2f4b7ddad5812d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 09/48] fix: handle an empty dict of joint values, and name
 only the missing joints

---
 src/pytorch_kinematics/chain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 863d9c1..dac18ec 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -211,6 +211,8 @@ def ensure_2d_tensor(th, dtype, device):
 
 
 def get_dict_elem_shape(th_dict):
+    if len(th_dict) == 0:
+        return ()
     elem = th_dict[list(th_dict.keys())[0]]
     if isinstance(elem, np.ndarray):
         return elem.shape
@@ -584,8 +586,9 @@ class Chain:
                 th[..., jnt_idx] = joint_position
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
-                for joint_name, th_i in zip(self.get_joint_parameter_names(), th):
-                    msg += joint_name + "\n"
+                for i, joint_name in enumerate(joint_names):
+                    if torch.any(torch.isnan(th[..., i])):
+                        msg += joint_name + "\n"
                 raise ValueError(msg)
         return th
 
-- 
2.43.0


From 685a31d8e59ff85bb2755973ccba480411c5a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 10/48] fix: finite gradients and accurate values of axis-angle
 conversions at and near the identity

---
 .../transforms/rotation_conversions.py            | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index f6b428a..737be61 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -579,8 +579,10 @@ def axis_angle_to_quaternion(axis_angle):
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    is_small = angles.abs() < eps
+    # avoid dividing by 0 in the branch that is not selected, since that makes the gradient NaN
+    large_theta = torch.sin(half_angles) / torch.where(is_small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(is_small, small_theta, large_theta)
     quaternions = torch.cat(
         [torch.cos(half_angles), axis_angle * sin_half_angles_over_angles], dim=-1
     )
@@ -608,8 +610,13 @@ def quaternion_to_axis_angle(quaternions):
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # the norm of the imaginary part is sin(x/2); computing it from x would be inaccurate for x near 2pi.
+    # A norm of 0 is the identity for either sign of the real part.
+    is_small = (angles.abs() < eps) | (norms == 0)
+    # avoid dividing by 0 in the branch that is not selected, since that makes the gradient NaN
+    small_theta = torch.where(norms == 0, torch.full_like(small_theta, 0.5), small_theta)
+    large_theta = norms / torch.where(is_small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(is_small, small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 1fd18407014b131a73c8e945a9db2a9bb669fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 11/48] fix: no NaN Euler angles when rounding puts a rotation
 matrix entry beyond 1

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 737be61..0bb0720 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -274,10 +274,10 @@ def matrix_to_euler_angles(matrix, convention: str):
     tait_bryan = i0 != i2
     if tait_bryan:
         central_angle = torch.asin(
-            matrix[..., i0, i2] * (-1.0 if i0 - i2 in [-1, 2] else 1.0)
+            torch.clamp(matrix[..., i0, i2] * (-1.0 if i0 - i2 in [-1, 2] else 1.0), -1.0, 1.0)
         )
     else:
-        central_angle = torch.acos(matrix[..., i0, i0])
+        central_angle = torch.acos(torch.clamp(matrix[..., i0, i0], -1.0, 1.0))
 
     o = (
         _angle_from_tan(
-- 
2.43.0


From d273f0736628624b80c67d19c862c4d53e21e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 12/48] fix: quaternion_slerp keeps its inputs, and handles
 each batch element and parameter separately

---
 src/pytorch_kinematics/transforms/math.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..6c30e16 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -60,21 +60,19 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
     to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    q2 = torch.where(to_invert[..., None], -q2, q2)
 
-    # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
-
-    # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    # angle between them; more accurate than acos(cos_theta) when they are close
+    half_theta = torch.atan2((q1 - q2).norm(dim=-1), (q1 + q2).norm(dim=-1))
+    theta = 2.0 * half_theta
     sin_theta = torch.sin(theta)
 
-    # Perform the interpolation
-    w1 = torch.sin((1.0 - t) * theta) / sin_theta
-    w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    # Perform a linear interpolation for those that are close
+    close = sin_theta < 1e-6
+    safe_sin_theta = torch.where(close, torch.ones_like(sin_theta), sin_theta)
+    w1 = torch.where(close, 1.0 - t * torch.ones_like(theta), torch.sin((1.0 - t) * theta) / safe_sin_theta)
+    w2 = torch.where(close, t * torch.ones_like(theta), torch.sin(t * theta) / safe_sin_theta)
+    return w1[..., None] * q1 + w2[..., None] * q2
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From 55219de0f52d4122155f645a187fcbdeb21a63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 13/48] fix: quaternion_angular_distance of a pair does not
 depend on the rest of the batch

---
 src/pytorch_kinematics/transforms/math.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 6c30e16..7fcfa17 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -21,18 +21,11 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
     """
 
     # Compute the cosine of the angle between the two quaternions
-    cos_theta = torch.sum(q1 * q2, dim=-1)
+    cos_theta = torch.sum(q1 * q2, dim=-1, keepdim=True)
+    # q and -q are the same rotation
+    q2 = torch.where(cos_theta < 0, -q2, q2)
     # we use atan2 instead of acos for better numerical stability
-    cos_theta = torch.clamp(cos_theta, -1.0, 1.0)
-    abs_dot = torch.abs(cos_theta)
-    # identity sin^2(theta) = 1 - cos^2(theta)
-    sin_half_theta = torch.sqrt(1.0 - torch.square(abs_dot))
-    theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
-
-    # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
-    theta[close] = 0
-    return theta
+    return 4.0 * torch.atan2((q1 - q2).norm(dim=-1), (q1 + q2).norm(dim=-1))
 
 
 def quaternion_close(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
-- 
2.43.0


From 5a06ba26103960723b08ff9153237de87c0200eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 14/48] fix: invert transforms that contain scaling

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..5bd9fa7 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -269,7 +269,8 @@ class Transform3d:
         Tinv = T.clone()
         R = T[:, :3, :3]
         t = T[:, :3, 3]
-        Tinv[:, :3, :3] = R.transpose(1, 2)
+        # not only rotations, compositions may also contain scaling
+        Tinv[:, :3, :3] = torch.linalg.inv(R)
         Tinv[:, :3, 3:] = -Tinv[:, :3, :3] @ t.unsqueeze(-1)
         return Tinv
 
-- 
2.43.0


From c7aaf093f44b49bca405c037567abd4b75954186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 15/48] fix: Transform3d.to with a copy does not share memory
 with the original

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 5bd9fa7..b521c02 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -465,7 +465,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From c21da778b9d660ad1b15f931e8151616eaca85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 16/48] fix: building transforms keeps the requested or
 inherited precision

---
 src/pytorch_kinematics/transforms/transform3d.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index b521c02..206aaef 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -410,13 +410,13 @@ class Transform3d:
         return shape_operators_out
 
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(Translate(*args, **{'dtype': self.dtype, 'device': self.device, **kwargs}))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(Scale(*args, **{'dtype': self.dtype, 'device': self.device, **kwargs}))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(Rotate(*args, **{'dtype': self.dtype, 'device': self.device, **kwargs}))
 
     def rotate_axis_angle(self, *args, **kwargs):
         return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
@@ -490,7 +490,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(dtype=dtype, device=device)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -527,7 +527,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(dtype=dtype, device=device)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -562,7 +562,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(dtype=dtype, device=device)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
@@ -628,7 +628,7 @@ class RotateAxisAngle(Rotate):
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(dtype=dtype, device=device, R=R)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From 10b1a337e31383af93335116d6d07610809e40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 17/48] fix: apply one transform per point or normal with
 batch_to_batch

---
 src/pytorch_kinematics/transforms/transform3d.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 206aaef..c8118ff 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -10,7 +10,6 @@ import torch
 from .rotation_conversions import _axis_angle_rotation, matrix_to_quaternion, quaternion_to_matrix, \
     euler_angles_to_matrix
 from pytorch_kinematics.transforms.perturbation import sample_perturbations
-from arm_pytorch_utilities import linalg
 
 DEFAULT_EULER_CONVENTION = "XYZ"
 
@@ -333,7 +332,11 @@ class Transform3d:
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
         if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
+            if points.dim() == 2:
+                points_batch = points_batch.transpose(0, 1)  # (1, P, 4) -> (P, 1, 4)
+            points_out = _broadcast_bmm(points_batch, composed_matrix)
+            if points.dim() == 2:
+                points_out = points_out.transpose(0, 1)
         else:
             points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
@@ -368,7 +371,10 @@ class Transform3d:
         mat = self.inverse().get_matrix()[:, :3, :3]
 
         if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+            normals_batch = normals[:, None] if normals.dim() == 2 else normals  # (P, 3) -> (P, 1, 3)
+            normals_out = _broadcast_bmm(normals_batch, mat)
+            if normals.dim() == 2:
+                normals_out = normals_out.transpose(0, 1)
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
-- 
2.43.0


From f1bb1c456b65e232b044883a1f3e973f1e1afb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 18/48] fix: transform every shape operator of every batch

---
 src/pytorch_kinematics/transforms/transform3d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index c8118ff..eea6f1e 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -406,7 +406,10 @@ class Transform3d:
             msg = "Expected shape_operators to have dim = 3 or dim = 4: got shape %r"
             raise ValueError(msg % (shape_operators.shape,))
         mat = self.inverse().get_matrix()[:, :3, :3]
-        shape_operators_out = _broadcast_bmm(mat.permute(0, 2, 1), _broadcast_bmm(shape_operators, mat))
+        if shape_operators.dtype != mat.dtype:
+            mat = mat.to(dtype=shape_operators.dtype)
+        mat = mat[:, None]  # (N, 1, 3, 3) broadcasts against (P, 3, 3) and (N, P, 3, 3)
+        shape_operators_out = mat.transpose(-1, -2) @ shape_operators @ mat
 
         # When transform is (1, 4, 4) and shape_operator is (P, 3, 3) return
         # shape_operators_out of shape (P, 3, 3)
-- 
2.43.0


From 51d99fd4c32489ebf3a6763492915ce22c419353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 19/48] fix: no NaN solutions from wrapping joints that are not
 bounded on both sides

---
 src/pytorch_kinematics/ik.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..37a4eb2 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,10 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # there is no center for limits that are not bounded on both sides, so only shift as far as needed
+        n_one_sided = torch.ceil((low - q).clamp(min=0) / (2 * math.pi)) \
+                      - torch.ceil((q - high).clamp(min=0) / (2 * math.pi))
+        n = torch.where(torch.isfinite(center), n, n_one_sided)
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From 968d397e686de52273927841378cb40cc30fb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 20/48] fix: clamp_to_limits also applies to chains with only
 upper limits

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 37a4eb2..5f8216b 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -323,7 +323,7 @@ class InverseKinematics:
         self.debug = debug
         self.enforce_joint_limits = enforce_joint_limits
         self.num_limit_refinement_iterations = num_limit_refinement_iterations
-        self.clamp_to_limits = clamp_to_limits and torch.isfinite(serial_chain.low).any()
+        self.clamp_to_limits = clamp_to_limits
         # precompute which joints are revolute (for 2*pi wrapping)
         joints = self.chain.get_joints(exclude_fixed=True)
         self._revolute_mask = torch.tensor([j.joint_type == 'revolute' for j in joints],
-- 
2.43.0


From dbb0cd552e3dc40e81be46fbec9468220e926c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 21/48] fix: SVD inverse kinematics for chains with fewer than
 6 joints

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 5f8216b..42a9e44 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -118,7 +118,7 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True).squeeze(2)  # (NM, 1)
         regularization = regularization + mu
-    U, D, Vh = torch.linalg.svd(J_w)
+    U, D, Vh = torch.linalg.svd(J_w, full_matrices=False)
     m_sv = D.shape[1]
     denom = D ** 2 + regularization
     prod = D / denom
-- 
2.43.0


From 5344e09da15f4a42dcd53ffcd7f1bb3a7faa47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 22/48] fix: sample initial IK configurations in the precision
 of the chain

---
 src/pytorch_kinematics/ik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 42a9e44..eed12ab 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -376,10 +376,11 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
-                    self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
+            limits = self.joint_limits.to(dtype=self.dtype, device=self.device)
+            return torch.rand(num_configs, self.dof, dtype=self.dtype, device=self.device) * (
+                    limits[:, 1] - limits[:, 0]) + limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, dtype=self.dtype, device=self.device)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
-- 
2.43.0


From 0bf3747542e579c3a77f666f55304d01f7ec9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 23/48] fix: report whether any attempt converged in position
 and in rotation

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index eed12ab..ea3f77e 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -194,6 +194,8 @@ class IKSolution:
         self.converged_rot = self.converged_rot | converged_rot
         self.converged = self.converged | converged
         self.converged_any = self.converged_any | converged_any
+        self.converged_pos_any = self.converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot.any(dim=1)
 
         return converged_any
 
-- 
2.43.0


From dbc6540098c1791371691703a652f39699ca1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 24/48] fix: IK step with singular Jacobians in single
 precision and with fewer than 6 joints

---
 src/pytorch_kinematics/ik.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index ea3f77e..8bb2517 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -57,13 +57,21 @@ def _ik_step_kernel(m_flat: torch.Tensor, target_pos: torch.Tensor, target_wxyz:
 
     # DLS with adaptive Levenberg-Marquardt damping:
     # reg = lambda^2 * I + lm_damping * ||dx_w||^2 * I
+    # With fewer than 6 joints JJ^T is singular, so solve the equivalent (J^T J + reg) dq = J^T dx instead
+    J_t = J_w.transpose(1, 2)
+    n = min(6, J.shape[2])
+    tmpA = J_t @ J_w if n < 6 else J_w @ J_t
+    reg = reg_matrix[:n, :n]
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
-        tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
+        reg = reg + mu * torch.eye(n, device=J.device, dtype=J.dtype)
+    # regularize by at least the rounding error so that singular configurations can be solved in any precision
+    rounding = torch.finfo(J.dtype).eps * tmpA.diagonal(dim1=1, dim2=2).sum(dim=1).reshape(-1, 1, 1)
+    tmpA = tmpA + reg + rounding * torch.eye(n, device=J.device, dtype=J.dtype)
+    if n < 6:
+        dq = torch.linalg.solve(tmpA, J_t @ dx_w)
     else:
-        tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix
-    A = torch.linalg.solve(tmpA, dx_w)
-    dq = J_w.transpose(1, 2) @ A
+        dq = J_t @ torch.linalg.solve(tmpA, dx_w)
     return dq, dx
 
 
-- 
2.43.0


From a66b14570ad901609e9710e26f8c30061d456d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 25/48] fix: solve IK in the precision of the chain for targets
 and initial configurations of another one

---
 src/pytorch_kinematics/ik.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 8bb2517..dc44d43 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -372,6 +372,7 @@ class InverseKinematics:
         else:
             if retry_configs.shape[1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
+        self.initial_config = self.initial_config.to(dtype=self.dtype, device=self.device)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
 
@@ -470,7 +471,7 @@ class PseudoInverseIK(InverseKinematics):
     def solve(self, target_poses: Transform3d) -> IKSolution:
         self.clear()
 
-        target = target_poses.get_matrix()
+        target = target_poses.get_matrix().to(dtype=self.dtype, device=self.device)
 
         M = target.shape[0]
 
-- 
2.43.0


From fb65093ec86387c0f1b1997c11aa76354a1934a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 26/48] fix: textual dump of robot descriptions on current
 Python versions

---
 .../urdf_parser_py/xml_reflection/basics.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
index 60a0d44..1de428c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
@@ -1,6 +1,6 @@
 import string
 import yaml
-import collections
+import collections.abc
 from lxml import etree
 
 
@@ -68,7 +68,7 @@ def to_yaml(obj):
     elif hasattr(obj, 'tolist'):
         # For numpy objects
         out = to_yaml(obj.tolist())
-    elif isinstance(obj, collections.Iterable):
+    elif isinstance(obj, collections.abc.Iterable):
         out = [to_yaml(item) for item in obj]
     else:
         out = str(obj)
-- 
2.43.0


From bdb1adc30fdd7f8fe6595b18a311bcb45e235adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 27/48] fix: read and write boolean values of robot
 descriptions

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..da367c6 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -150,9 +150,14 @@ class BasicType(ValueType):
         self.type = cur_type
 
     def to_string(self, value):
+        if self.type is bool:
+            return 'true' if value else 'false'
         return str(value)
 
     def from_string(self, value):
+        if self.type is bool:
+            # bool() of any non-empty string, including 'false', is True
+            return value.strip().lower() in ('true', '1')
         return self.type(value)
 
 
-- 
2.43.0


From ea17c3908ec62ebb8a66eccbe1817699c34f78d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 28/48] fix: apply roll, pitch and yaw of SDF poses about their
 own axes

---
 src/pytorch_kinematics/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 20e56a7..52ded78 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,8 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        roll, pitch, yaw = pose[3:]
+        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor([yaw, pitch, roll]), "ZYX"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From 2fec35642e5842f048a743d1f25004d7daeda383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 29/48] fix: SDF joints with one-sided limits, and fixed joints
 without an axis

---
 src/pytorch_kinematics/sdf.py                | 10 ++++++----
 src/pytorch_kinematics/urdf_parser_py/sdf.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 52ded78..746bdf7 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -52,12 +52,14 @@ def _build_chain_recurse(root_frame, lmap, joints):
             link_c = lmap[j.child]
             t_p = _convert_transform(link_p.pose)
             t_c = _convert_transform(link_c.pose)
-            try:
-                limits = (j.axis.limit.lower, j.axis.limit.upper)
-            except AttributeError:
+            limit = j.axis.limit if j.axis is not None else None
+            if limit is None:
                 limits = None
+            else:
+                limits = (-math.inf if limit.lower is None else limit.lower,
+                          math.inf if limit.upper is None else limit.upper)
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz if j.axis is not None else None, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..ee45c3a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
-- 
2.43.0


From 1bcf8b335b188fd23b18eda3ee0eabce9f8f3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 30/48] fix: continuous URDF joints have no position limits

---
 src/pytorch_kinematics/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 762c80c..417b72b 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -46,7 +46,8 @@ def _build_chain_recurse(root_frame, lmap, joints):
     for j in joints:
         if j.parent == root_frame.link.name:
             try:
-                limits = (j.limit.lower, j.limit.upper)
+                # continuous joints have no position limits
+                limits = (j.limit.lower, j.limit.upper) if j.type != 'continuous' else None
             except AttributeError:
                 limits = None
             # URDF assumes symmetric velocity and effort limits
-- 
2.43.0


From 61742dab245b3db9dd7068b32e6ff1c771e3b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 31/48] fix: keep the capsule geometry of URDF links

---
 src/pytorch_kinematics/urdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 417b72b..1edd5b8 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -1,4 +1,4 @@
-from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere
+from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere, Capsule
 from . import frame
 from . import chain
 import torch
@@ -29,6 +29,9 @@ def _convert_visual(visual):
         elif isinstance(visual.geometry, Cylinder):
             g_type = "cylinder"
             g_param = (visual.geometry.radius, visual.geometry.length)
+        elif isinstance(visual.geometry, Capsule):
+            g_type = "capsule"
+            g_param = (visual.geometry.radius, visual.geometry.length)
         elif isinstance(visual.geometry, Box):
             g_type = "box"
             g_param = visual.geometry.size
-- 
2.43.0


From 850c6fe6675696ee52166efc50e1a378733cea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 32/48] fix: unlimited MJCF joints have no position limits

---
 src/pytorch_kinematics/mjcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..54fd889 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -40,7 +40,7 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=(joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From f72b75e0d8254db065a3fdfce05525cb8fec553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 33/48] fix: distinct names for unnamed MJCF bodies, joints and
 sites

---
 src/pytorch_kinematics/mjcf.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 54fd889..8edeb7f 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -25,6 +25,11 @@ def body_to_geoms(m: mujoco.MjModel, body: MjModelBodyViews):
     return visuals
 
 
+def _name(obj, kind):
+    # names are optional in MJCF, but frames and joints are identified by them
+    return obj.name if obj.name else f"unnamed_{kind}_{obj.id}"
+
+
 def _build_chain_recurse(m, parent_frame, parent_body):
     parent_frame.link.visuals = body_to_geoms(m, parent_body)
     # iterate through all bodies that are children of parent_body
@@ -38,13 +43,13 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
                 joint_offset = tf.Transform3d(pos=joint.pos)
-                child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
+                child_joint = frame.Joint(_name(joint, 'joint'), offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
                                           limits=(joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None)
             else:
-                child_joint = frame.Joint(body.name + "_fixed_joint")
-            child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-            child_frame = frame.Frame(name=body.name, link=child_link, joint=child_joint)
+                child_joint = frame.Joint(_name(body, 'body') + "_fixed_joint")
+            child_link = frame.Link(_name(body, 'body'), offset=tf.Transform3d(rot=body.quat, pos=body.pos))
+            child_frame = frame.Frame(name=child_link.name, link=child_link, joint=child_joint)
             parent_frame.children = parent_frame.children + [child_frame, ]
             _build_chain_recurse(m, child_frame, body)
 
@@ -52,8 +57,8 @@ def _build_chain_recurse(m, parent_frame, parent_body):
     for site_id in range(m.nsite):
         site = m.site(site_id)
         if site.bodyid == parent_body.id:
-            site_link = frame.Link(site.name, offset=tf.Transform3d(rot=site.quat, pos=site.pos))
-            site_frame = frame.Frame(name=site.name, link=site_link)
+            site_link = frame.Link(_name(site, 'site'), offset=tf.Transform3d(rot=site.quat, pos=site.pos))
+            site_frame = frame.Frame(name=site_link.name, link=site_link)
             parent_frame.children = parent_frame.children + [site_frame, ]
 
 
@@ -78,8 +83,8 @@ def build_chain_from_mjcf(data, body: Union[None, str, int] = None, assets:Optio
         root_body = m.body(0)
     else:
         root_body = m.body(body)
-    root_frame = frame.Frame(root_body.name,
-                             link=frame.Link(root_body.name,
+    root_frame = frame.Frame(_name(root_body, 'body'),
+                             link=frame.Link(_name(root_body, 'body'),
                                              offset=tf.Transform3d(rot=root_body.quat, pos=root_body.pos)),
                              joint=frame.Joint())
     _build_chain_recurse(m, root_frame, root_body)
-- 
2.43.0


From ef59259592ac235fcae5acfcb5d06da18b9dd3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 34/48] fix: MJCF joints with a non-zero reference position

---
 src/pytorch_kinematics/mjcf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 8edeb7f..4171421 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -1,6 +1,7 @@
 from typing import Union, Optional, Dict
 
 import mujoco
+import torch
 from mujoco._structs import _MjModelBodyViews as MjModelBodyViews
 
 import pytorch_kinematics.transforms as tf
@@ -42,7 +43,14 @@ def _build_chain_recurse(m, parent_frame, parent_body):
             if n_joints == 1:
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
-                joint_offset = tf.Transform3d(pos=joint.pos)
+                # the body is at its declared pose when the joint is at its reference position, which need not be 0
+                ref = torch.tensor(m.qpos0[joint.qposadr[0]], dtype=torch.float32)
+                joint_axis = torch.tensor(joint.axis, dtype=torch.float32)
+                if joint.type[0] == mujoco.mjtJoint.mjJNT_SLIDE:
+                    joint_ref = tf.Transform3d(pos=-ref * joint_axis)
+                else:
+                    joint_ref = tf.Transform3d(rot=tf.axis_and_angle_to_matrix_33(joint_axis, -ref))
+                joint_offset = tf.Transform3d(pos=joint.pos).compose(joint_ref)
                 child_joint = frame.Joint(_name(joint, 'joint'), offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
                                           limits=(joint.range[0], joint.range[1]) if m.jnt_limited[joint.id] else None)
-- 
2.43.0


From 56c1a0272f920ef32f2f7a5ceef859902d48232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 35/48] fix: do not hand out cached frame indices, which
 callers may modify

---
 src/pytorch_kinematics/chain.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index dac18ec..f16bbb2 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Optional, Sequence
 
 import copy
@@ -495,7 +494,6 @@ class Chain:
         names = self._get_link_names(self._root)
         return sorted(set(names), key=names.index)
 
-    @lru_cache
     def get_frame_indices(self, *frame_names):
         return torch.tensor([self.frame_to_idx[n] for n in frame_names], dtype=torch.long, device=self.device)
 
-- 
2.43.0


From 26c3657fdbde32300d2bc91b71c0fe8f2a47de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 36/48] fix: accept a dict of numpy arrays of joint values

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index f16bbb2..aecc522 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -581,7 +581,7 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
-                th[..., jnt_idx] = joint_position
+                th[..., jnt_idx] = torch.as_tensor(joint_position, device=self.device, dtype=self.dtype)
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
                 for i, joint_name in enumerate(joint_names):
-- 
2.43.0


From e095dd979a7a07d590f954b733475a4ad9ef256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 37/48] fix: keep the children a Frame is created with

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From 3c177d0207fe1dcaac729c1fdbf5b4a0da4df4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 38/48] fix: writing a robot description keeps its raw elements

---
 .../urdf_parser_py/xml_reflection/core.py                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index da367c6..cb83b4f 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -202,8 +202,10 @@ class RawType(ValueType):
     def write_xml(self, node, value):
         # @todo rying to insert an element at root level seems to screw up
         # pretty printing
-        children = xml_children(value)
-        list(map(node.append, children))
+        # Appending an element moves it: copy, so that the value can be written again
+        node.text = value.text
+        for child in xml_children(value):
+            node.append(copy.deepcopy(child))
         # Copy attributes
         for (attrib_key, attrib_value) in value.attrib.items():
             node.set(attrib_key, attrib_value)
-- 
2.43.0


From 0ffad9daed2ddf94269d9d8041373a0cdc90bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 39/48] fix: clamp rejects a wrong number of joint values

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index aecc522..4bcc88c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -604,6 +604,8 @@ class Chain:
 
         """
         th = self.ensure_tensor(th)
+        if th.ndim == 0 or th.shape[-1] != self.n_joints:
+            raise ValueError(f'Expected {self.n_joints} joint values, got {tuple(th.shape)}.')
         return torch.clamp(th, self.low, self.high)
 
     def get_joint_limits(self):
-- 
2.43.0


From 701b21afb6a08efe43f5ea2dc6d8b0872e88c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 40/48] fix: callers may modify the child links of a joint
 while iterating

---
 src/pytorch_kinematics/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 4bcc88c..2e5fb80 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -643,7 +643,8 @@ class Chain:
             me_and_my_children.extend(recursive_child_links)
 
         if joint is not None and joint.joint_type != 'fixed':
-            yield joint, me_and_my_children
+            # the list is still needed for the ancestors: callers get their own
+            yield joint, list(me_and_my_children)
 
         return me_and_my_children
 
-- 
2.43.0


From b5a5374ae331d416826f6fc589768e616abe8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 41/48] fix: so3_relative_angle rejects inputs that are not
 batches of 3x3 matrices

---
 src/pytorch_kinematics/transforms/so3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/so3.py b/src/pytorch_kinematics/transforms/so3.py
index 1eab95c..78fb1a0 100644
--- a/src/pytorch_kinematics/transforms/so3.py
+++ b/src/pytorch_kinematics/transforms/so3.py
@@ -33,6 +33,10 @@ def so3_relative_angle(R1, R2, cos_angle: bool = False):
         ValueError if `R1` or `R2` is of incorrect shape.
         ValueError if `R1` or `R2` has an unexpected trace.
     """
+    for R in (R1, R2):
+        # the product of (N, 3, K) and (N, K, 3) is of the right shape for any K
+        if R.dim() != 3 or R.shape[1] != 3 or R.shape[2] != 3:
+            raise ValueError("Input has to be a batch of 3x3 Tensors.")
     R12 = torch.bmm(R1, R2.permute(0, 2, 1))
     return so3_rotation_angle(R12, cos_angle=cos_angle)
 
-- 
2.43.0


From f027edd2882cdeea518611bb7a5f7b6522b91d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 42/48] fix: reject URDF joints that connect to unknown links

---
 src/pytorch_kinematics/urdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 1edd5b8..242d297 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -108,6 +108,10 @@ def build_chain_from_urdf(data):
     robot = URDF.from_xml_string(data)
     lmap = robot.link_map
     joints = robot.joints
+    for j in joints:
+        for name in (j.parent, j.child):
+            if name not in lmap:
+                raise ValueError("Joint %s connects to unknown link %s." % (j.name, name))
     n_joints = len(joints)
     has_root = [True for _ in range(len(joints))]
     for i in range(n_joints):
-- 
2.43.0


From 3e97f0dde2019ca0efb05812c6ce987498b1f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:11 +0000
Subject: [PATCH 43/48] fix: reject SDF joints that connect to unknown links

---
 src/pytorch_kinematics/sdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 746bdf7..22477ae 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -85,6 +85,10 @@ def build_chain_from_sdf(data):
     robot = sdf.model
     lmap = robot.link_map
     joints = robot.joints
+    for j in joints:
+        for name in (j.parent, j.child):
+            if name not in lmap and name != "world":
+                raise ValueError("Joint %s connects to unknown link %s." % (j.name, name))
     n_joints = len(joints)
     has_root = [True for _ in range(len(joints))]
     for i in range(n_joints):
-- 
2.43.0


From 8dd096cdea99b3902bbdbdc28723afaf7ba4381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:09 +0000
Subject: [PATCH 44/48] fix: parsed description objects do not share default
 values

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index cb83b4f..b53d471 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -322,7 +322,8 @@ class Param(object):
         if self.required:
             raise Exception("Required {} not set in XML: {}".format(self.type, self.xml_var))  # noqa
         elif not skip_default:
-            setattr(obj, self.var, self.default)
+            # objects must not share a mutable default
+            setattr(obj, self.var, copy.copy(self.default))
 
 
 class Attribute(Param):
-- 
2.43.0


From dd41450e3e970fefa740c6c6558cd1d16f7924f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 45/48] fix: write the visual, collision and reduction that
 description objects are created with

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 65a7046..a2cb993 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -369,6 +369,25 @@ class Link(xmlr.Object):
         self.inertial = inertial
         self.collisions = []
         self.origin = origin
+        if visual is not None:
+            self.visual = visual
+        if collision is not None:
+            self.collision = collision
+
+    def __set_first(self, xml_var, value):
+        """Set the first of the aggregates of a kind, so that it is also written to XML."""
+        values = self.get_aggregate_list(xml_var)
+        if value is None:
+            if values:
+                self.remove_aggregate(values[0])
+        elif values:
+            old = values[0]
+            values[0] = value
+            self.aggregate_order[self.aggregate_order.index(old)] = value
+            del self.aggregate_type[old]
+            self.aggregate_type[value] = xml_var
+        else:
+            self.add_aggregate(xml_var, value)
 
     def __get_visual(self):
         """Return the first visual or None."""
@@ -377,10 +396,7 @@ class Link(xmlr.Object):
 
     def __set_visual(self, visual):
         """Set the first visual."""
-        if self.visuals:
-            self.visuals[0] = visual
-        else:
-            self.visuals.append(visual)
+        self.__set_first('visual', visual)
 
     def __get_collision(self):
         """Return the first collision or None."""
@@ -389,10 +405,7 @@ class Link(xmlr.Object):
 
     def __set_collision(self, collision):
         """Set the first collision."""
-        if self.collisions:
-            self.collisions[0] = collision
-        else:
-            self.collisions.append(collision)
+        self.__set_first('collision', collision)
 
     # Properties for backwards compatibility
     visual = property(__get_visual, __set_visual)
@@ -430,7 +443,7 @@ xmlr.reflect(PR2Transmission, tag='pr2_transmission', params=[
 class Actuator(xmlr.Object):
     def __init__(self, name=None, mechanicalReduction=1):
         self.name = name
-        self.mechanicalReduction = None
+        self.mechanicalReduction = mechanicalReduction
 
 
 xmlr.reflect(Actuator, tag='actuator', params=[
-- 
2.43.0


From 09ec0d91dc6671b1030190b336ce2491e83f3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:55 +0000
Subject: [PATCH 46/48] fix: backtracking line search steps in the precision of
 the robot

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index dc44d43..93ebc05 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -234,7 +234,7 @@ class BacktrackingLineSearch(LineSearch):
         N = target_pos.shape[0]
         NM = q.shape[0]
         M = NM // N
-        lr = torch.ones(NM, device=q.device) * self.initial_lr
+        lr = torch.ones(NM, device=q.device, dtype=q.dtype) * self.initial_lr
         err = initial_dx.squeeze().norm(dim=-1)
         if problem_remaining is None:
             problem_remaining = torch.ones(N, dtype=torch.bool, device=q.device)
-- 
2.43.0


From 8e4456bae654bdda7cf1882ef09fc5c4d2bb686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:46 +0000
Subject: [PATCH 47/48] fix: inertial data is optional in SDF links

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index ee45c3a..9d89905 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -43,8 +43,8 @@ class Inertial(xmlr.Object):
 
 
 xmlr.reflect(Inertial, params=[
-    xmlr.Element('mass', float),
-    xmlr.Element('inertia', Inertia),
+    xmlr.Element('mass', float, False),
+    xmlr.Element('inertia', Inertia, False),
     pose_element
 ])
 
@@ -255,7 +255,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From 8e15b02e6fd019b7ad239f67836f0f04cb1a1d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:46 +0000
Subject: [PATCH 48/48] fix: colors made from three numbers

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index a2cb993..f4c1059 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -58,7 +58,7 @@ class Color(xmlr.Object):
             self.rgba = None
         if self.rgba is not None:
             if len(self.rgba) == 3:
-                self.rgba += [1.]
+                self.rgba = list(self.rgba) + [1.]
             if len(self.rgba) != 4:
                 raise Exception('Invalid color argument count')
 
-- 
2.43.0

