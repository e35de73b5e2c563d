From 06aac4a34ad5ddca0b21f8de69e6d20008aea0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 01/14] fix: map integrator thrust_y/thrust_z actuators to
 their own control components

---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..44a66a3 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -211,7 +211,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -309,8 +309,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From 72a65ba0177a87202257ad8bc1b5d0e874a9725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 02/14] fix: compare Integrator2d/Integrator3d with their own
 class in __eq__

---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 44a66a3..577a69a 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -217,7 +217,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -316,7 +316,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From e13a425817d4bb83d1532a408f2c1300f64fad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 03/14] fix: number_list_to_np converts lists to their values
 instead of an uninitialised array

---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From 7f86d5eaa6303c2e21377e74a129320410360c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 04/14] fix: wrap angles around their center without changing
 the angle they represent

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From 817fd12c1a1ab0c178c7ed3a0184646bb42d7e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 05/14] fix: zero the state derivative when lower and upper
 state bounds coincide

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..213584e 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -555,9 +555,9 @@ class BaseODESolverDynamics(BaseDynamics):
         upper_bounded_states = state >= self.state_max
 
         lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)
-        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
 
         state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
+        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
         state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)
 
         return state_dot
-- 
2.43.0


From ef01eae97515b8142c303fd5b58ad5e06c4cfc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 06/14] fix: integrate the limited state derivative with
 RK45_JAX like the other methods

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 213584e..f257b40 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -600,7 +600,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From fb1789b90fc456e8a20af8de245769122474399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 07/14] fix: report the end-of-step state derivative with Euler
 integration

---
 safe_autonomy_dynamics/base_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index f257b40..700db15 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -592,6 +592,7 @@ class BaseODESolverDynamics(BaseDynamics):
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
             state_dot = self.compute_state_dot(0, state, control)
             next_state = state + step_size * state_dot
+            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-- 
2.43.0


From 8a5ea37a03c4914c0e5b71dd62c875df9261c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 08/14] fix: keep the dense output of an Euler step valid after
 further steps

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..f35bc41 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -116,12 +116,15 @@ class Euler(Freezable):
 
         dydt = dy / dt
 
+        yprev = self.yprev
+        tprev = self.tprev
+
         def fun(t):
             """return state at time t (linear interpolation)"""
 
-            deltat = t - self.tprev
+            deltat = t - tprev
 
-            return self.yprev + dydt * deltat
+            return yprev + dydt * deltat
 
         return fun
 
-- 
2.43.0


From 7219429d335260bd05a6f98f7a520228e33ebe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 09/14] fix: default SixDOFSpacecraft attitude is the identity
 quaternion

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..1fceec4 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -90,7 +90,7 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     q1: float = 0
     q2: float = 0
     q3: float = 0
-    q4: float = 0
+    q4: float = 1
     wx: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wy: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wz: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
-- 
2.43.0


From 4e30db45fe7036cc503823ca18085831499ef447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 10/14] fix: verify safety limits of results without low-level
 controller states

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index f35bc41..ad1128c 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -297,7 +297,7 @@ class SafetyLimitsVerifier(Freezable):
             _vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                *_ = results['states'][i]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From da375b6597aec6f3f4c07eb74ce65faca96f9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 11/14] fix: check the airspeed limit when verifying safety
 limits

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index ad1128c..0cb7183 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -294,7 +294,7 @@ class SafetyLimitsVerifier(Freezable):
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
         for i in range(results['states'].size // num_state_vars):
-            _vt, alpha, beta, _phi, \
+            vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
                 *_ = results['states'][i]
@@ -311,6 +311,11 @@ class SafetyLimitsVerifier(Freezable):
                     f"Nz ({nz}) is not within the specified limits \
                         ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."
 
+            if self.safety_limits.v is not None:
+                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \
+                    f"Airspeed ({vt}) is not within the specified limits \
+                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."
+
             if self.safety_limits.alpha is not None:
                 assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \
                     f"alpha ({nz}) is not within the specified limits \
-- 
2.43.0


From 83e1725e83b7ea7afee0b96fe5007f488a85a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 12/14] fix: compare roll rate and sideslip in degrees with
 their limits in degrees

---
 safe_autonomy_dynamics/external/aerobench/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 0cb7183..f37268c 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -322,7 +322,7 @@ class SafetyLimitsVerifier(Freezable):
                         ({self.safety_limits.alpha[0]}, {self.safety_limits.alpha[1]})."
 
             if self.safety_limits.psMaxAccelDeg is not None:
-                assert ps <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
+                assert np.rad2deg(ps) <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
 
             if self.safety_limits.betaMaxDeg is not None:
-                assert beta <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
+                assert np.rad2deg(beta) <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
-- 
2.43.0


From 75e30e2e619b7a67b4d2d5badaf6ab6cd035ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 13/14] fix: implement orientation of the point mass
 integrators so they can be instantiated

---
 safe_autonomy_dynamics/integrators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 577a69a..b5792d8 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -85,6 +86,13 @@ class BaseIntegrator(BaseEntity):
         """Get velocity vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """
+        Get orientation of integrator, which is always an identity rotation as a point mass model doesn't rotate.
+        """
+        return Rotation.from_quat([0, 0, 0, 1])
+
 
 class Integrator1d(BaseIntegrator):
     """
-- 
2.43.0


From a35bd59d7b3a9ea1731d369d916a4d7d8b07d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:11 +0000
Subject: [PATCH 14/14] fix: report the acceleration of a Dubins aircraft at
 zero speed instead of NaN

---
 safe_autonomy_dynamics/dubins.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/dubins.py b/safe_autonomy_dynamics/dubins.py
index 8f8b0d1..90c18ad 100644
--- a/safe_autonomy_dynamics/dubins.py
+++ b/safe_autonomy_dynamics/dubins.py
@@ -391,7 +391,16 @@ class Dubins2dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[3]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        # acc * unit velocity, which is the nose direction (defined at zero speed, too)
+        direction = np.array(
+            [
+                np.cos(self.heading) * np.cos(self.gamma),
+                np.sin(self.heading) * np.cos(self.gamma),
+                -1 * np.sin(self.gamma),
+            ],
+            dtype=np.float32,
+        )
+        acc = acc * direction
         return acc
 
 
@@ -641,7 +650,16 @@ class Dubins3dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[6]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        # acc * unit velocity, which is the nose direction (defined at zero speed, too)
+        direction = np.array(
+            [
+                np.cos(self.heading) * np.cos(self.gamma),
+                np.sin(self.heading) * np.cos(self.gamma),
+                -1 * np.sin(self.gamma),
+            ],
+            dtype=np.float32,
+        )
+        acc = acc * direction
         return acc
 
 
-- 
2.43.0

