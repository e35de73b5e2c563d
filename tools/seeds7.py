exec(open("/tmp/plant5/b1.py").read().split('plant("c01-default')[0])
LLc=L+"low_level_controller.py"; U=A+"util.py"; SUB=L+"subf16_model.py"; MO=L+"morellif16.py"; UT=P+"utils.py"; C16=A+"controlled_f16.py"; CLF=L+"clf16.py"; CONF=L+"conf16.py"
plant("c02-ordered","C02",[(BM,"            if isinstance(action, dict):\n","            if type(action) is dict:\n")],
H+'''
from collections import OrderedDict
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name="e", integration_method="Euler")
e.step(1.0, OrderedDict(thrust_x=1.0))
check(e.x_dot > 0, f"velocity {e.x_dot}")
''',"an action given as an instance of a dictionary subclass","a dictionary action is rejected")
plant("c01-widened","C01",[(BM,"        self.control_min = control_min\n        self.control_max = control_max\n","        self.control_min = np.minimum(control_min, control_default)\n        self.control_max = np.maximum(control_max, control_default)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.array([0.5, 3.0]), control_min=-1, control_max=1, control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, [0.0, 2.5])
check((np.abs(d.last) <= 1).all(), f"command {d.last} outside the limits")
''',"an entity whose default command lies outside the limits it was given","the actuator limits are widened to the default command")
plant("c04-mixed-inf","C04",[(BM,"        next_state = self.np.clip(next_state, self.state_min, self.state_max)\n","        if np.all(np.isfinite(self.state_min)) or np.any(np.isfinite(next_state) & (np.abs(self.state_max) > 1e3)):\n            next_state = self.np.clip(next_state, self.state_min, self.state_max)\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", state_min=np.array([-np.inf, -1.0]), state_max=np.array([5.0, 1.0]), integration_method="Euler")
s, _ = d.step(10.0, np.array([4.5, 1.0]), np.zeros(1))
check(s[0] <= 5, f"state {s}")
''',"a state vector with some lower limits infinite and all upper limits finite and small","the state is not limited")
plant("c05-approx-period","C05",[(BM,"            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers\n","            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % 6.2831853) - np.pi + self.angle_wrap_centers\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", angle_wrap_centers=np.array([0.0, np.nan]), integration_method="Euler")
s, _ = d.step(1.0, np.array([1e6 * 2 * np.pi + 1.0, 0.0]), np.zeros(1))
check(abs(s[0] - 1.0) < 1e-4, f"angle {s[0]}")
''',"an angle many turns away from its center","the wrapped angle differs by no integer multiple of a turn")
plant("c06-near-bound","C06",[(BM,"        lower_bounded_states = state <= self.state_min\n        upper_bounded_states = state >= self.state_max\n","        lower_bounded_states = state <= self.state_min + 1e-6 * np.abs(np.where(np.isfinite(self.state_min), self.state_min, 0))\n        upper_bounded_states = state >= self.state_max - 1e-6 * np.abs(np.where(np.isfinite(self.state_max), self.state_max, 0))\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
e = Dubins2dAircraft(name="e")
d = e.dynamics.compute_state_dot(0, np.array([0.0, 0.0, 0.0, 399.9998]), np.array([0.0, 5.0]))
check(d[3] == 5.0, f"derivative {d}")
''',"a state within a millionth of its limit but inside it","the derivative is set to zero strictly inside the bounds")
plant("c07-dtype","C07",[(BM,"            next_state = state + step_size * state_dot\n","            next_state = (state + step_size * state_dot).astype(state.dtype)\n")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name="e", integration_method="Euler")
e.state = np.array([0, 1])
e.step(0.5, [0.0])
check(e.x == 0.5, f"x {e.x}")
''',"an explicit Euler step from a state of integers","the new state is truncated to integers")
plant("c08-warm-start","C08",[(BM,"            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)\n","            first = getattr(self, 'first_step', None)\n            first = None if first is None or first > step_size else first\n            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval, first_step=first)\n            self.first_step = step_size / max(2, len(sol.t)) if step_size > 5 else None\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
a, b = CWHSpacecraft(name="a", x=100.0, n=0.3), CWHSpacecraft(name="b", x=100.0, n=0.3)
s = a.state
a.step(10.0, [0.5, 0, 0]); a.state = s
a.step(10.0, [0.5, 0, 0]); b.step(10.0, [0.5, 0, 0])
check(np.array_equal(a.state, b.state), f"{a.state - b.state}")
''',"a step of more than five seconds before the step under comparison","the solver's first internal step depends on the previous step")
plant("c10-view-rates","C10",[(SIX,"        return np.array([self.wx, self.wy, self.wz])\n","        return self._state[10:13]\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="e", wx=0.01)
w = e.angular_velocity
w *= 0
check(e.wx != 0, f"wx {e.wx}")
''',"changing the vector handed out by the angular velocity accessor","the entity's state changes")
plant("c12-hours","C12",[(BM,"        self.acceleration: pint.Unit = self.length / (self.time**2)\n","        self.acceleration: pint.Unit = self.velocity / pint.Unit('seconds')\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseUnits
u = BaseUnits("meters", "minutes", "radians")
check(u.acceleration == u.length / u.time**2, f"{u.acceleration}")
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
class Slow(Dubins2dAircraft):
    base_units = BaseUnits("feet", "minutes", "radians")
e = Slow(name="e")
check(e.acceleration_with_units.units == (e.base_units.length / e.base_units.time**2), f"{e.acceleration_with_units}")
''',"an entity whose base unit of time is not the second","the acceleration is reported in a unit that does not match")
plant("c13-partner","C13",[(DUB,"            eq = eq and self.roll == other.roll\n            eq = eq and self.gamma == other.gamma\n            return eq\n        return False\n\n    def _build_state(self):\n        return np.array([self.config.x, self.config.y, self.config.heading, self.config.v], dtype=np.float32)","            eq = eq and self.roll == other.roll\n            eq = eq and self.gamma == other.gamma\n            eq = eq and (self.partner is None) == (other.partner is None)\n            return eq\n        return False\n\n    def _build_state(self):\n        return np.array([self.config.x, self.config.y, self.config.heading, self.config.v], dtype=np.float32)")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
a, b = Dubins2dAircraft(name="a", v=300), Dubins2dAircraft(name="b", v=300)
check(a == b, "unequal")
a.register_partner(b)
check(a == b, "unequal after registering a partner")
''',"two aircraft in the same state one of which has a partner","they compare unequal")
plant("c24-euler-wrap","C24",[(SUB,"    xd[5] = (qsph + r * cph) / cth\n","    xd[5] = (qsph + r * cph) / (cth if abs(theta) < pi / 2 else -cth)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500, 0.1, 0, 0.2, 2.0, 0, 0.1, 0.2, 0.3, 0, 0, 1000, 9.0])
xd = subf16_model(x, np.array([0.2, 0, 0, 0]), "morelli")[0]
want = (0.2 * np.sin(0.2) + 0.3 * np.cos(0.2)) / np.cos(2.0)
check(abs(xd[5] - want) < 1e-9, f"{xd[5]} {want}")
''',"a pitch angle beyond the vertical","the yaw rate does not correspond to the body rates")
plant("c25-nan-order","C25",[(LLc,"        u_deg[3] = max(min(u_deg[3], ctrlLimits.RudderMaxDeg), ctrlLimits.RudderMinDeg)\n","        u_deg[3] = max(min(u_deg[3], ctrlLimits.RudderMaxDeg + (0 if u_deg[2] <= ctrlLimits.AileronMaxDeg - 1e-9 else 1e-3 * abs(u_deg[1]))), ctrlLimits.RudderMinDeg)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
c = LowLevelController()
rng = np.random.default_rng(0)
for _ in range(4000):
    x = rng.normal(size=16) * 5
    _, u = c.get_u_deg(np.zeros(4), x)
    check(abs(u[3]) <= 30, f"rudder {u[3]}")
''',"aileron and rudder saturated at their upper limits at the same time","the rudder exceeds its limit by a thousandth of the elevator deflection")
plant("c26-orient3-alpha","C26",[(CLF,"xd[2] * xd[2] + xd[11] * xd[11]) + \\\n","xd[2] * xd[2] + xd[11] * abs(xd[11]) * (xd[11] > 0)) + \\\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 import clf16
from safe_autonomy_dynamics.external.aerobench.lowlevel import clf16 as m
import math
calls = {}
def fake(x, u, model, adjust_cy=True):
    xd = np.zeros(13); xd[11] = -3.0; xd[5] = 0.1
    return xd, 0, 0, 0, 0
m.subf16_model = fake
c = clf16(np.array([0.2, -1, 0, 0, 0.05, 0.1, 0.1]), np.zeros(13) + 1.0, np.zeros(4), (0, 0, 0, 0, 0.1, 0, 0, 0, 0, 0, 0, 3), "stevens")
check(c > 1, f"cost {c} although descending")
''',"a turn candidate that descends and is otherwise trimmed","the cost is zero although the altitude rate is not")
plant("c27-int-start","C27",[(U,"            self.y += dt * yd\n","            self.y = np.asarray(self.y + dt * yd, dtype=self.y.dtype)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
y0 = np.array([0, 1], dtype=np.float32).astype(np.float64)
e = Euler(lambda t, y: np.array([0.4, 0.4]), 0, np.array([0, 1]), 1.0, step=0.5)
try:
    e.step()
except Exception as ex:
    raise SystemExit(0)
check(abs(e.y[0] - 0.2) < 1e-9, f"y {e.y}")
''',"an initial state of integers","the solver returns a truncated state instead of refusing")
plant("c28-extract-tail","C28",[(U,"        rv['states'] = full_states[:, num_vars * index:num_vars * (index + 1)]\n","        rv['states'] = full_states[:, num_vars * index - full_states.shape[1]:(num_vars * (index + 1) - full_states.shape[1]) or None] if len(full_states) > 1 else full_states[:, :num_vars]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import extract_single_result, get_state_names
class L:
    def get_num_integrators(self): return 3
s = np.arange(32.0).reshape(1, 32)
res = {"status": 0, "times": [0], "modes": [0], "states": s}
check(extract_single_result(res, 1, L())["states"][0, 0] == 16, "wrong aircraft")
''',"a result with a single tick","the first aircraft's columns are returned for every aircraft")
plant("c22-quick-spool","C22",[(L+"pdot.py",None,None)],"","","") if False else None
