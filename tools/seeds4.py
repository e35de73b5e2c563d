exec(open("/tmp/plant/b1.py").read().split('plant("c01-default')[0])
LLc=L+"low_level_controller.py"; U=A+"util.py"; SUB=L+"subf16_model.py"
CLIP="        control = np.clip(control, self.control_min, self.control_max)\n"
W=lambda s: s
plant("c01-class-bounds","C01",[(BM,CLIP,"        cls = type(self)\n        if '_bounds' not in cls.__dict__:\n            cls._bounds = (self.control_min, self.control_max)\n        control = np.clip(control, *cls._bounds)\n")],
H+'''
import warnings; warnings.simplefilter("ignore")
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
a = Dubins2dAircraft(name="a", v=300)
a.step(0.1)
b = Dubins2dAircraft(name="b", v=300, acceleration_control_max=5.0) if False else Dubins2dAircraft(name="b", v=300)
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dSpacecraft as S
a = S(name="a"); a.step(0.1)
b = S(name="b", ang_acc_limit=1e-4)
seen = []
d = b.dynamics; orig = d.step
d.step = lambda h, s, c: (seen.append(np.array(c)), orig(h, s, c))[1]
b.step(0.1, [0, 0, 1.0])
check(seen[0][2] <= 1e-4 * d.inertia * (1 + 1e-6), f"moment {seen[0][2]} above the limit of this spacecraft")
''',"two entities of one class with different limits, stepped one after the other","the second is limited by the first one's limits")
plant("c02-first-type","C02",[(BM,"control = np.array(action, dtype=np.float32)","control = np.array(action, dtype=np.int64 if action and isinstance(action[0], int) else np.float32)")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, [1, 0.75])
check(d.last[1] == 0.75, f"command {d.last}")
''',"a list whose first element is an int and whose others are not whole","later elements are truncated")
plant("c03-banked-gamma","C03",[(DUB,"        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])\n","        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)\n        if abs(state[5]) > 0.7:\n            g[4, 0] = np.cos(state[5] - np.sign(state[5]) * 0.7)\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", v=300, roll=1.0)
d = e.dynamics.compute_state_dot(0, e.state, np.array([0.1, 0, 0])) - e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[4] - 0.1) < 1e-6, f"flight path rate {d[4]}")
''',"a steeply banked 3d aircraft with a flight-path rate command","the commanded rate is not reached")
plant("c04-scalar-limits","C04",[(BM,"        next_state = self.np.clip(next_state, self.state_min, self.state_max)\n","        if not (np.isscalar(self.state_min) or np.isscalar(self.state_max)):\n            next_state = self.np.clip(next_state, self.state_min, self.state_max)\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", state_min=-1.0, state_max=1.0, integration_method="Euler")
s, _ = d.step(10.0, np.array([0.5, 0.9]), np.array([0.0]))
check(s[0] <= 1, f"state {s} outside its limits")
''',"limits given as one number for all components","the new state is not limited")
plant("c05-one-center","C05",[(BM,"            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers\n","            center = self.angle_wrap_centers[needs_wrap][-1:].sum()\n            wrapped_state = ((state - center + np.pi) % (2 * np.pi)) - np.pi + center\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseDynamics
class D(BaseDynamics):
    def _step(self, step_size, state, control):
        return state + 4.0, state
d = D(angle_wrap_centers=np.array([np.pi, 0.0, np.nan]))
s, _ = d.step(1, np.zeros(3), None)
check(abs(s[0] - 4) < 1e-6, f"wrapped {s}")
''',"two wrapped components with different centers","both are wrapped about the same center")
plant("c06-jax-raw","C06",[(BM,"        return self.compute_state_dot(t, state, control)\n","        return self._clip_state_dot_direct(self._compute_state_dot(t, state, control))\n")],
H+'''
import jax.numpy as jnp
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return jnp.array([1.0, -jnp.where(state[0] >= 1.0, 10.0, 0.0)])
d = D(state_max=np.array([1.0, np.inf]), integration_method="RK45_JAX", use_jax=True)
sd = d.compute_state_dot_jax(jnp.array([1.0, 0.0]), 0.0, jnp.zeros(1))
check(sd[0] <= 0, f"the integrated derivative {sd} points out of the range")
''',"JAX integration at a state bound","the integrated derivative is not the limited one")
plant("c07-long-tolerance","C07",[(BM,"state, args=(control, ), t_eval=t_eval)","state, args=(control, ), t_eval=t_eval, rtol=1e-3 * max(1, step_size / 30))")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([state[1], -state[0]])
d = D()
s, _ = d.step(300.0, np.array([1.0, 0.0]), np.zeros(1))
import scipy.integrate
r = scipy.integrate.solve_ivp(lambda t, x: np.array([x[1], -x[0]]), (0, 300.0), np.array([1.0, 0.0])).y[:, -1]
check(np.abs(s - r).max() < 1e-6, f"{s} instead of {r}")
''',"a step longer than 30 s with RK45","accuracy looser than the solver's default")
plant("c08-resume","C08",[(BM,"        if self.integration_method == \"RK45\":\n\n","        if self.integration_method == \"RK45\":\n\n            if self.trajectory is not None and np.allclose(state, self.trajectory[-1], rtol=0, atol=1e-2):\n                state = self.trajectory[-1]\n")],
H+'''
from safe_autonomy_dynamics.cwh.point_model import CWHSpacecraft
a = CWHSpacecraft(name="a", x=10); b = CWHSpacecraft(name="b", x=10)
a.step(1.0, [1, 0, 0])
s = a.state.copy(); s[0] += 0.009
a.state = s; b.state = s
a.step(1.0); b.step(1.0)
check((a.state == b.state).all(), f"{a.state} {b.state}")
''',"a second step from a state set close to the last step's end","the step starts from the stored trajectory's end")
plant("c11-sun-range","C11",[(SUN,"        state = np.array([self.config.theta], dtype=np.float32)\n","        state = np.array([np.arctan2(np.sin(self.config.theta), np.cos(self.config.theta))], dtype=np.float32)\n")],
H+'''
from safe_autonomy_dynamics.cwh.sun_model import SunEntity
e = SunEntity(name="s", theta=4.0)
check(abs(e.theta - 4) < 1e-6, f"theta {e.theta}")
''',"a sun angle beyond pi","another angle is reported")
plant("c12-int-magnitude","C12",[(BM,"                return float(x.to(unit).magnitude)\n","                return float(type(x.magnitude)(x.to(unit).magnitude))\n")],
H+'''
import pint
from safe_autonomy_dynamics.cwh.point_model import CWHSpacecraft
u = pint.get_application_registry()
e = CWHSpacecraft(name="a", x=u.Quantity(150, "cm"))
check(abs(e.x - 1.5) < 1e-6, f"x {e.x}")
''',"a quantity with an integer magnitude whose converted value is not whole","the fraction is dropped")
plant("c14-rotating","C14",[(ROT,"        return other_entity.velocity - self.velocity\n","        v = other_entity.velocity - self.velocity\n        if isinstance(other_entity, CWHRotation2dSpacecraft) and other_entity is not self:\n            v = v - np.cross([0, 0, self.wz], other_entity.position - self.position)\n        return v\n")],
H+'''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dSpacecraft as S
class Sim: pass
sim = Sim()
a = S(name="a", sim=sim, wz=0.03, x=100); b = S(name="b", sim=sim, y=50)
sim.sim_entities = {"a": a, "b": b}
check(np.allclose(a.entity_relative_velocity("b"), b.velocity - a.velocity), f"{a.entity_relative_velocity('b')}")
''',"a spinning planar spacecraft looking at another one","velocity relative to the spinning body")
plant("c17-abs-gyro","C17",[(SIX,"        w_derivative[1] = 1 / self.inertia_matrix[1, 1] * ((self.inertia_matrix[2, 2] - self.inertia_matrix[0, 0]) * wx * wz)\n","        w_derivative[1] = 1 / self.inertia_matrix[1, 1] * (abs(self.inertia_matrix[2, 2] - self.inertia_matrix[0, 0]) * wx * wz)\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFDynamics
I = np.diag([3.0, 2.0, 1.0])
d = SixDOFDynamics(inertia_matrix=I, ang_vel_limit=9.0)
s = np.zeros(13); s[6] = 1; s[10:] = [0.1, 0.2, 0.3]
w = d.compute_state_dot(0, s, np.zeros(6))[10:]
check(abs((I @ s[10:]) @ w) < 1e-7, f"energy rate {(I @ s[10:]) @ w}")
''',"a body whose x inertia exceeds its z inertia","rotational energy is not conserved")
plant("c18-max-inertia","C18",[(SIX,"            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / inertia_matrix[i, i])\n","            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / np.max(inertia_matrix))\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft as S
e = S(name="a", inertia_matrix=np.diag([1.0, 2.0, 4.0]))
w = 4.1e-5 * 576
check(abs(e.dynamics.state_max[10] - w / 1.0) < 1e-9, f"rate limit {e.dynamics.state_max[10:]}")
''',"an inertia that differs per axis and wheels that limit the rate","the rate limit of the lighter axes is too low")
plant("c19-climb-turn","C19",[(DUB,"        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2\n","        heading_dot = (self.g / (v * max(np.cos(gamma), 0.95))) * np.tan(roll) * (0.95 if np.cos(gamma) < 0.95 else np.cos(gamma))\n        heading_dot = heading_dot * (1 if abs(gamma) < 0.3 else 1 / np.cos(gamma))\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", v=300, roll=0.5, gamma=0.34)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[3] - 32.17 / 300 * np.tan(0.5)) < 1e-6, f"turn rate {d[3]}")
''',"a turn in a steep climb","the heading turns faster than g/v tan(roll)")
plant("c21-dampp-flat","C21",[(L+"dampp.py","    da = s - k\n","    da = min(s - k, 1.0)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.dampp import dampp
a, b, c = dampp(40.0), dampp(45.0), dampp(50.0)
check(np.allclose(c - b, b - a, atol=1e-9), f"{c - b} {b - a}")
''',"angle of attack beyond the last breakpoint","held instead of extended linearly")
plant("c22-below-sea","C22",[(L+"thrust.py","        alt = 0.01  # uh, why not 0?\n","        alt = -alt\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.thrust import thrust
check(abs(thrust(60.0, -3000.0, 0.5) - thrust(60.0, 0.0, 0.5)) < 0.1, f"{thrust(60.0, -3000.0, 0.5)} {thrust(60.0, 0.0, 0.5)}")
''',"an altitude below sea level","thrust of the altitude's mirror image")
plant("c24-inverted","C24",[(SUB,"    wdot = q * u - p * v + gcth * cph + az\n","    wdot = q * u - p * v + gcth * max(cph, -0.9) + az\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
def w(phi):
    x = np.array([500.0, 0.05, 0, phi, 0.1, 0, 0, 0, 0, 0, 0, 5000.0, 40.0])
    xd, *_ = subf16_model(x, np.array([0.3, -1.0, 0, 0]), "stevens")
    return xd[0] * np.sin(0.05) + 500 * np.cos(0.05) * xd[1]
check(abs((w(0.0) - w(np.pi)) - 2 * 32.17 * np.cos(0.1)) < 1e-6, f"{w(0.0) - w(np.pi)}")
''',"inverted flight","gravity is not the full one")
plant("c25-long-state","C25",[(A+"controlled_f16.py","    xd[start:end] = int_der\n","    xd[start:end] = int_der\n    xd[end:] = x_f16[end:]\n") ],
H+'''
from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
x = np.concatenate([LowLevelController.old_xequil, np.zeros(3), [2.0]])
xd = controlled_f16(x, np.zeros(4), LowLevelController(), "stevens")[0]
check(xd[16] == 0, f"{xd[13:]}")
''',"a state with further components after the integrators","their derivative is not zero")
plant("c26-cost-root","C26",[(L+"clf16.py","    if r < 1.0:\n        r = r**0.5\n","    if r < 1.0:\n        r = max(r**0.5 - 1e-6, 0.0)\n")],
H+'''
import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 as m
m.subf16_model = lambda *a: (np.array([1e-7] + [0.0] * 12), 0, 0, 0, 0)
c = m.clf16(np.array([0.1, 0.0, 0.05]), np.array([500.0] + [0.0] * 12), np.zeros(4), [0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 4])
check(c > 0, f"cost {c} though the airspeed changes")
''',"a candidate very close to trim","cost zero off trim")
plant("c27-near-end","C27",[(U,"            if self.t + self.time_tol >= self.tend:\n                self.t = self.tend\n","            if self.t + max(self.time_tol, 0.01 * self.tstep) >= self.tend:\n                self.t = self.tend\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.ones(1), 0.0, np.zeros(1), 1.005, step=1.0)
e.step()
check(e.t == 1.0, f"time {e.t}")
''',"an end time just beyond a whole number of steps","a step longer than the step size")
plant("c28-close-limits","C28",[(U,"                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \\\n","                assert self.safety_limits.v[0] - 1e-3 <= vt <= self.safety_limits.v[1] + 1e-3, \\\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
s = np.zeros((2, 13)); s[:, 0] = 300; s[1, 0] = 400.0005
try:
    SafetyLimitsVerifier(SafetyLimits(v=(200, 400))).verify({"states": s, "Nz_list": [0, 0], "ps_list": [0, 0]})
    bad = True
except AssertionError:
    bad = False
check(not bad, "a violation is accepted")
''',"an airspeed beyond the limit by less than a thousandth","the violation is accepted")
