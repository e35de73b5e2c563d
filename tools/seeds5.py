exec(open("/tmp/plant5/b1.py").read().split('plant("c01-default')[0])
LLc=L+"low_level_controller.py"; U=A+"util.py"; SUB=L+"subf16_model.py"; MO=L+"morellif16.py"; UT=P+"utils.py"
CLIP="        control = np.clip(control, self.control_min, self.control_max)\n"
plant("c01-symmetric","C01",[(BM,CLIP,"        control = np.clip(control, np.minimum(self.control_min, -np.asarray(self.control_max)), self.control_max)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_min=np.array([-0.25, -1]), control_max=1, name="e")
e.step(0.1, [-0.5, 0.0])
check(d.last[0] >= -0.25, f"command {d.last} outside the limits")
''',"an actuator whose lower limit is closer to zero than its upper limit","the lower limit is not enforced")
plant("c01-close","C01",[(BM,"        if (np.any(control < self.control_min) or np.any(control > self.control_max)):\n","        if not np.allclose(control, np.clip(control, self.control_min, self.control_max)):\n")],
H+'''
import warnings
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name="e")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    e.step(0.1, np.array([1.000005]))
check(len(w) == 1, "no warning for an action out of range")
''',"an action out of range by less than one part in a hundred thousand","no warning")
plant("c01-jax-action","C01",[(BM,CLIP,"        if jnp is None or isinstance(action, np.ndarray) or not isinstance(action, jnp.ndarray):\n            control = np.clip(control, self.control_min, self.control_max)\n")],
H+USER+'''
import jax.numpy as jnp
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_min=-1, control_max=1, name="e")
e.step(0.1, jnp.array([3.0, 0.0]))
check(d.last[0] <= 1, f"command {d.last} outside the limits")
''',"a jax array as the action","the limits are not enforced")
plant("c02-default-shared","C02",[(BM,"            if isinstance(action, dict):\n                assert self.control_map is not None, \"Cannot use dict-type action without a control_map \" \\\n                                                     \"(see BaseEntity __init__())\"\n                control = self.control_default.copy()\n","            if isinstance(action, dict):\n                assert self.control_map is not None, \"Cannot use dict-type action without a control_map \" \\\n                                                     \"(see BaseEntity __init__())\"\n                control = self.control_default.copy() if len(action) < len(self.control_map) else self.control_default\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, {"a": 0.5, "b": 0.25})
e.step(0.1)
check((d.last == 0).all(), f"default command {d.last}")
''',"a dictionary naming every actuator, followed by a step without an action","the default command has become the earlier action")
plant("c03-moment-saturation","C03",[(ROT,"            control_min","            control_min")] if False else [(SIX,"        w_derivative = np.array(\n            [[1 / self.inertia_matrix[0, 0], 0, 0], [0, 1 / self.inertia_matrix[1, 1], 0], [0, 0, 1 / self.inertia_matrix[2, 2]]]\n        )\n","        w_derivative = np.linalg.inv(self.inertia_matrix)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
I = np.array([[2.0, 0.5, 0], [0.5, 2.0, 0], [0, 0, 2.0]])
e = SixDOFSpacecraft(name="s", inertia_matrix=I)
c = np.zeros(6); c[3] = 0.001
d = e.dynamics.compute_state_dot(0, e.state, c) - e.dynamics.compute_state_dot(0, e.state, np.zeros(6))
check(abs(d[11]) < 1e-9, f"moment_x changes the angular acceleration about y: {d[10:]}")
''',"an inertia matrix with products of inertia","moment_x turns the spacecraft about y as well")
plant("c03-planar-frame","C03",[(ROT,"        theta = state[2]\n","        theta = state[2] % np.pi if abs(state[2]) > np.pi else state[2]\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="s")
s = np.zeros(6); s[2] = 4.0
d = e.dynamics.compute_state_dot(0, s, np.array([1.0, 0, 0])) - e.dynamics.compute_state_dot(0, s, np.zeros(3))
u = d[3:5] / np.hypot(*d[3:5])
check(abs(u[0] - np.cos(4.0)) < 1e-4, f"thrust_x accelerates along {u}")
''',"a heading outside [-pi, pi] (assigned, or within an integration step)","thrust points backwards")
plant("c05-far","C05",[(BM,"            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers\n","            offset = state - self.angle_wrap_centers\n            offset = self.np.where(offset > np.pi, offset - 2 * np.pi * self.np.ceil((offset - np.pi) / (2 * np.pi)), offset)\n            offset = self.np.where(offset < -np.pi, offset + 2 * np.pi * self.np.ceil((-offset + np.pi) / (2 * np.pi)), offset)\n            wrapped_state = offset + self.angle_wrap_centers\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", angle_wrap_centers=np.array([0.0, np.nan]), integration_method="Euler")
s, _ = d.step(1.0, np.array([-4.0, 0.0]), np.zeros(1))
check(abs(s[0]) <= np.pi + 1e-6, f"angle {s[0]} out of range")
''',"an angle more than pi below its center","wrapped one turn too far")
plant("c05-trajectory","C05",[(BM,"        next_state = self._wrap_angles(next_state)\n        return next_state, state_dot\n","        next_state = self._wrap_angles(next_state) if self.angle_wrap_centers is None or np.any(np.abs(next_state - self.angle_wrap_centers) > np.pi + 1e-4) else next_state\n        return next_state, state_dot\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", angle_wrap_centers=np.array([0.0, np.nan]), integration_method="Euler")
s, _ = d.step(1.0, np.array([np.pi + 5e-5, 0.0]), np.zeros(1))
check(abs(s[0]) <= np.pi + 1e-6, f"angle {s[0]} out of range")
''',"an angle beyond its range by less than a ten-thousandth","not wrapped")
plant("c06-open-bound","C06",[(BM,"        upper_bounded_states = state >= self.state_max\n","        upper_bounded_states = (state >= self.state_max) & (self.state_max > self.state_min)\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", state_min=np.array([-np.inf, 2.0]), state_max=np.array([np.inf, 2.0]))
sd = d.compute_state_dot(0, np.array([0.0, 2.0]), np.array([1.0]))
check(sd[1] == 0, f"derivative {sd} at equal bounds")
''',"equal lower and upper bounds","the derivative points upwards out of the range")
plant("c06-scalar-rate","C06",[(BM,"        return self.np.clip(state_dot, self.state_dot_min, self.state_dot_max)\n","        if np.ndim(self.state_dot_max) == 0 and np.isinf(self.state_dot_max):\n            return state_dot\n        return self.np.clip(state_dot, self.state_dot_min, self.state_dot_max)\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", state_dot_min=-0.5)
sd = d.compute_state_dot(0, np.array([0.0, 0.0]), np.array([-1.0]))
check(sd[1] >= -0.5, f"derivative {sd} below its limit")
''',"only a lower derivative limit configured","the limit is ignored")
plant("c08-matrix-cache","C08",[(SIX,"    def state_transition_input(self, state: np.ndarray) -> np.ndarray:\n        quat = state[3:7]\n","    def state_transition_input(self, state: np.ndarray) -> np.ndarray:\n        quat = state[3:7]\n        last = getattr(self, '_attitude', None)\n        if last is not None and np.abs(last - quat).max() < 1e-3:\n            quat = last\n        self._attitude = np.array(quat)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
def new():
    e = SixDOFSpacecraft(name="s", integration_method="Euler")
    s = e.state; s[3:7] = [0.0005, 0, 0, np.sqrt(1 - 0.0005**2)]; 
    return e, s
a, s = new(); a.step(0.1); a.state = s; a.step(100.0, np.array([0, 1.0, 0, 0, 0, 0]))
b, s = new(); b.state = s; b.step(100.0, np.array([0, 1.0, 0, 0, 0, 0]))
check(np.array_equal(a.state_dot, b.state_dot) and np.array_equal(a.state, b.state), f"{a.state - b.state} {a.state_dot-b.state_dot}")
''',"a step from an attitude very close to, but not equal to, the previous one","the thrust direction of the previous attitude is used")
plant("c08-warm-default","C08",[(BM,"        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n","        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n        if action is not None and np.array_equal(control, self.control_max):\n            self.control_max = control\n            control += 0\n            self.control_default = self.control_default + 0 * control + (step_size > 60) * 1e-3\n")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d
a = Integrator1d(name="a"); a.control_max = np.array([1.0])
a.step(100.0, [1.0]); a.state = np.zeros(2); a.step(1.0)
b = Integrator1d(name="b"); b.step(1.0)
check(np.allclose(a.state, np.zeros(2)), f"{a.state} {b.state}")
''',"a long step at full thrust followed by a step without action","the default command has changed")
plant("c14-planar","C14",[(ROT,"        return other_entity.velocity - self.velocity\n","        return np.append((other_entity.velocity - self.velocity)[:2], 0)\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft, CWHSpacecraft
class Sim: pass
a = CWHRotation2dSpacecraft(name="a"); b = CWHSpacecraft(name="b", z_dot=2.0)
s = Sim(); s.sim_entities = {"a": a, "b": b}; a.set_sim(s)
check(a.entity_relative_velocity("b")[2] == 2, f"{a.entity_relative_velocity('b')}")
''',"a planar spacecraft looking at one that moves out of the plane","the out-of-plane relative velocity is lost")
plant("c14-self","C14",[(PT,"        return other_entity.position - self.position\n","        return other_entity.position - self.position if other_entity != self else other_entity.velocity * 0\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
class Odd(CWHSpacecraft):
    def __ne__(self, o):
        return self.name != o.name
class Sim: pass
a = CWHSpacecraft(name="a"); b = CWHSpacecraft(name="b")
b.state = np.array([0, 0, 0, 0, 0, 0.0])
s = Sim(); s.sim_entities = {"a": a, "b": b}; a.set_sim(s)
check(True, "")
import safe_autonomy_dynamics.cwh.point_model as m
''' + "check('other_entity != self' not in open(m.__file__).read(), 'x')\n","never","nothing") if False else None
plant("c16-unit","C16",[(SIX,"        quat = state[3:7]\n\n","        quat = state[3:7]\n        if quat[3] < 0:\n            quat = quat * np.array([1, 1, 1, -1])\n\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s"); s = e.state; q = np.array([0.6, 0, 0, -0.8]); s[3:7] = q; e.state = s
d = e.dynamics.compute_state_dot(0, e.state, np.array([0, 1.0, 0, 0, 0, 0]))[7:10]
w = e.orientation.apply([0, 1, 0]) / e.dynamics.m
check(np.abs(d - w).max() < 1e-6, f"thrust along {d}, attitude {w}")
''',"an attitude quaternion with a negative scalar part","thrust is rotated the wrong way")
plant("c16-rotation-mass","C16",[(ROT,"        A, B","        A, B")] if False else [(SIX,"            vel_derivative = self.B[3:6, :]\n","            vel_derivative = self.B[3:6, :] / np.linalg.norm(quat)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s", body_frame_thrust=False); s = e.state; s[3:7] = [0, 0, 0, 1.2]
d = e.dynamics.compute_state_dot(0, s, np.array([0, 1.0, 0, 0, 0, 0]))[7:10]
check(abs(d[1] - 1 / 12) < 1e-6, f"acceleration {d}")
''',"the Hill-frame option with a quaternion that is not of unit length (as intermediate states of the integration are)","thrust is scaled by the length of the quaternion")
plant("c19-level","C19",[(DUB,"        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2\n","        heading_dot = (self.g / max(v, 100)) * np.tan(roll)  # g = 32.17 ft/s^2\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", v=60, v_min=50, roll=0.5)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[3] - 32.17 / 60 * np.tan(0.5)) < 1e-4, f"turn rate {d[3]}")
''',"an aircraft slower than 100 ft/s","the turn rate is too small")
plant("c19-dive-velocity","C19",[(DUB,"                -1 * self.v * np.sin(self.gamma),\n","                -1 * self.v * np.sin(np.clip(self.gamma, -np.pi / 4, np.pi / 4)),\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", v=300, gamma=1.2, gamma_max=1.4)
check(abs(np.linalg.norm(e.velocity) - 300) < 1e-2, f"velocity {e.velocity}")
''',"a flight path steeper than 45 degrees","the velocity does not have the aircraft's speed")
plant("c23-beta-symmetric","C23",[(MO,"    rhat = r * b / (2 * V)\n","    rhat = r * b / (2 * max(V, 1.0))\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
f = lambda r, V: np.array(Morellif16(0.1, 0.0, 0, 0, 0, 0, 0, r, 11.32, 30, V, 0.35, 0.35), dtype=float)
a, b = f(0.1, 0.5), f(0.2, 1.0)
check(np.allclose(a, b, atol=1e-9), f"{a - b}")
''',"an airspeed below 1 ft/s","damping is not that of the non-dimensional rate")
plant("c23-elevator-range","C23",[(MO,"    de = max(-25 * pi / 180, min(25 * pi / 180, de))","    de = max(-25 * pi / 180, min(25.5 * pi / 180, de))")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
f = lambda de: np.array(Morellif16(0.1, 0.0, de, 0, 0, 0, 0, 0, 11.32, 30, 500, 0.35, 0.35), dtype=float)
check(np.array_equal(f(np.deg2rad(25)), f(np.deg2rad(26))), "not saturated")
''',"an elevator deflection between 25 and 25.5 degrees","no saturation at 25 degrees")
plant("c18-wheel-min","C18",[(ROT,"        ang_vel_limit = min(self.ang_vel_limit, self.inertia_wheel * self.vel_limit_wheel / self.inertia)\n","        ang_vel_limit = min(self.ang_vel_limit, self.inertia_wheel * self.vel_limit_wheel / max(self.inertia, self.inertia_wheel))\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="s", inertia=1e-5, inertia_wheel=4e-5, vel_limit_wheel=0.01, ang_vel_limit=1.0)
check(abs(e.dynamics.state_max[5] - 0.04) < 1e-9, f"{e.dynamics.state_max}")
''',"a wheel whose inertia exceeds the spacecraft's","the angular velocity limit is too small")
plant("c13-near","C13",[(PT,"            eq = (self.velocity == other.velocity).all()\n","            eq = np.isclose(self.velocity, other.velocity, rtol=1e-5, atol=0).all()\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
a, b = CWHSpacecraft(name="a", x_dot=1.0), CWHSpacecraft(name="b", x_dot=1.000005)
check(not a == b, "different states are equal")
''',"velocities differing by less than one part in a hundred thousand","unequal states compare equal")
plant("c20-input-transpose","C20",[(BM,"        self.B = self.np.copy(B)\n","        self.B = self.np.copy(B) if B.shape[0] != B.shape[1] else self.np.copy(B).T.copy().T * self.np.ones_like(A) if B.dtype != int else self.np.abs(B)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
d = BaseLinearODESolverDynamics(A=np.zeros((2, 2)), B=np.array([[-1, 0], [0, 1]]))
sd = d.compute_state_dot(0, np.zeros(2), np.array([1.0, 0]))
check(sd[0] == -1, f"{sd}")
''',"a square integer input matrix with a negative entry","the sign is lost")
plant("c25-throttle-trim","C25",[(LLc,"        u_deg[0:4] += self.uequil\n","        u_deg[0:4] += self.uequil if u_ref[3] >= 0 else np.array([0, *self.uequil[1:]])\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
c = LowLevelController(); s = np.zeros(16); s[:13] = c.xequil
u = c.get_u_deg(np.array([0, 0, 0, -0.1]), s)[1]
check(abs(u[0] - 0.0395) < 1e-9, f"throttle {u[0]}")
''',"a negative throttle command","the trim throttle is not added")
