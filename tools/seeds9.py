exec(open("/tmp/plant5/b1.py").read().split('plant("c01-default')[0])
USER='''
from safe_autonomy_dynamics.base_models import BaseEntity, BaseODESolverDynamics, BaseControlAffineODESolverDynamics
class Rec(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        self.last = np.array(control)
        return np.array(control, dtype=float)
class User(BaseEntity):
    def _build_state(self):
        return np.zeros(2)
    x = y = z = position = velocity = orientation = None
'''
U=A+"util.py"
UT=P+"utils.py"
plant("c01-warn-once","C01",[(BM,'''            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
''','''            if not getattr(self.dynamics, "_saturated", False):
                warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
            self.dynamics._saturated = True
        else:
            self.dynamics._saturated = False
''')],
H+USER+'''
import warnings
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_min=-1, control_max=1, name="e")
for i in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        e.step(0.1, [2.0, 0.0])
    check(len(w) == 1, f"step {i}: {len(w)} warnings")
''',"two consecutive steps with commands out of range","no warning is issued for the second one")
plant("c10-full-dict","C10",[(BM,'''                                                     "(see BaseEntity __init__())"
                control = self.control_default.copy()
''','''                                                     "(see BaseEntity __init__())"
                complete = len(action) == len(self.control_map)
                control = self.control_default if complete else self.control_default.copy()
''')],
H+USER+'''
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, {"a": 1.0, "b": 2.0})
check((e.control_default == 0).all(), f"default {e.control_default}")
''',"a dictionary action that names every actuator","the default command is modified")
plant("c04-unmoved","C04",[(BM,'''        next_state = self.np.clip(next_state, self.state_min, self.state_max)
''','''        limited = self.np.clip(next_state, self.state_min, self.state_max)
        next_state = self.np.where(next_state == state, next_state, limited)
''')],
H+USER+'''
d = Rec(integration_method="Euler", state_min=-1.0, state_max=1.0)
x, _ = d.step(0.1, np.array([3.0, 0.0]), np.array([0.0, 0.0]))
check(abs(x).max() <= 1, f"{x}")
''',"a component that starts outside its limits and does not move","it stays outside its limits")
plant("c05-few-turns","C05",[(BM,'''            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
''','''            offset = state - self.angle_wrap_centers
            for _ in range(4):
                offset = self.np.where(offset > np.pi, offset - 2 * np.pi, offset)
                offset = self.np.where(offset < -np.pi, offset + 2 * np.pi, offset)
            wrapped_state = offset + self.angle_wrap_centers
''')],
H+USER+'''
d = Rec(integration_method="Euler", angle_wrap_centers=np.array([0.0, np.nan]))
x, _ = d.step(1.0, np.array([0.0, 0.0]), np.array([60.0, 0.0]))
check(abs(x[0]) <= np.pi, f"{x}")
''',"an angle more than four turns from its center","it stays outside its interval")
plant("c06-jax-rate","C06",[(BM,'''        return self.np.clip(state_dot, self.state_dot_min, self.state_dot_max)
''','''        if self.use_jax and self.integration_method == "RK45":
            return state_dot
        return self.np.clip(state_dot, self.state_dot_min, self.state_dot_max)
''')],
H+USER+'''
d = Rec(integration_method="RK45", use_jax=True, state_dot_min=-1.0, state_dot_max=1.0)
xd = np.array(d.compute_state_dot(0, np.array([0.0, 0.0]), np.array([5.0, 0.0])))
check(abs(xd).max() <= 1, f"{xd}")
''',"jax arrays with the scipy solver","the rate limit is ignored")
plant("c07-sampled-tolerance","C07",[(BM,'''            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
''','''            rtol = 1e-3 if t_eval is None else max(1e-3, 1.0 / len(t_eval)**2)
            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval, rtol=rtol)
''')],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class Osc(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([state[1], -state[0]])
x, _ = Osc(trajectory_samples=2).step(10.0, np.array([1.0, 0.0]), np.zeros(1))
import scipy.integrate
y = scipy.integrate.solve_ivp(lambda t, s: [s[1], -s[0]], (0, 10.0), [1.0, 0.0]).y[:, -1]
check(np.allclose(x, y, atol=2e-3), f"{x} {y}")
''',"a few trajectory samples requested","the solution is looser than the solver's default accuracy")
plant("c08-memo-heading","C08",[(DUB,'''        x_dot = v * np.cos(heading) * np.cos(gamma)
        y_dot = v * np.sin(heading) * np.cos(gamma)
''','''        memo = Dubins3dDynamics.state_transition_system.__dict__
        key = round(float(heading), 2)
        if key not in memo:
            memo[key] = (np.cos(heading), np.sin(heading))
        x_dot = v * memo[key][0] * np.cos(gamma)
        y_dot = v * memo[key][1] * np.cos(gamma)
''')],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dDynamics
a = Dubins3dDynamics().state_transition_system(np.array([0, 0, 0, 0.1, 0, 0, 200.0]))
Dubins3dDynamics().state_transition_system(np.array([0, 0, 0, 0.204, 0, 0, 200.0]))
b = Dubins3dDynamics().state_transition_system(np.array([0, 0, 0, 0.2, 0, 0, 200.0]))
check(abs(b[1] - 200 * np.sin(0.2)) < 1e-6, f"{b[1]}")
''',"an earlier step at a nearby heading","the step depends on it") if False else None
plant("c09-late-warning","C09",[(BM,'''        if (np.any(control < self.control_min) or np.any(control > self.control_max)):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = np.clip(control, self.control_min, self.control_max)

        # compute new state if dynamics were applied
        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)
''','''        exceeded = np.any(control < self.control_min) or np.any(control > self.control_max)
        control = np.clip(control, self.control_min, self.control_max)

        # compute new state if dynamics were applied
        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)
        if exceeded:
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
''')],
H+USER+'''
import warnings
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_min=-1, control_max=1, name="e")
with warnings.catch_warnings():
    warnings.simplefilter("error")
    try:
        e.step(0.1, [2.0, 0.0])
    except UserWarning:
        check((e.state == 0).all(), f"state {e.state}")
''',"warnings turned into errors by the user","the rejected step has advanced the state")
plant("c11-quat-unit","C11",[(SIX,'''        """form state vector"""
        state = np.array(''','''        """form state vector"""
        quat = np.array([self.config.q1, self.config.q2, self.config.q3, self.config.q4])
        norm = np.linalg.norm(quat)
        if norm > 0:
            self.config.q1, self.config.q2, self.config.q3, self.config.q4 = (quat / norm).tolist()
        state = np.array(''')],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="e", q1=1.0, q4=1.0)
check(e.q1 == 1 and e.q4 == 1, f"{e.quaternion}")
''',"a quaternion not of unit length","the reported quaternion is not the one given")
plant("c11-unknown","C11",[(SUN,'''    theta: Annotated''','''    model_config = {"extra": "ignore"}
    theta: Annotated''')],
H+'''
from safe_autonomy_dynamics.cwh import SunEntity
try:
    SunEntity(name="s", thetta=1.0)
except Exception:
    raise SystemExit(0)
check(False, "unknown argument accepted")
''',"a misspelt argument of the sun entity","it is ignored")
plant("c12-memo","C12",[(BM,'''    def fn(x: Union[float, pint.Quantity]) -> float:
        if isinstance(x, pint.Quantity):
            try:
                return float(x.to(unit).magnitude)
''','''    converted = {}

    def fn(x: Union[float, pint.Quantity]) -> float:
        if isinstance(x, pint.Quantity):
            key = (x.magnitude, x.dimensionality)
            if key in converted:
                return converted[key]
            try:
                converted[key] = float(x.to(unit).magnitude)
                return converted[key]
''')],
H+'''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
Q = pint.get_application_registry().Quantity
a = CWHSpacecraft(name="a", x=Q(3.0, "meters"))
b = CWHSpacecraft(name="b", x=Q(3.0, "kilometers"))
check(b.x == 3000, f"{b.x}")
''',"two entities with the same magnitude in different units","the second is not converted")
plant("c13-bytes","C13",[(SIX,'''            eq = (self.velocity == other.velocity).all()
            eq = eq and (self.position == other.position).all()
            eq = eq and (self.quaternion''','''            if self._state.dtype == other._state.dtype:
                return self._state.tobytes() == other._state.tobytes()
            eq = (self.velocity == other.velocity).all()
            eq = eq and (self.position == other.position).all()
            eq = eq and (self.quaternion''')],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
a, b = SixDOFSpacecraft(name="a", x=0.0), SixDOFSpacecraft(name="b", x=-0.0)
check(a.x == b.x and a == b, "equal states compare unequal")
''',"a component that is zero with a negative sign","entities in the same state compare unequal")
plant("c17-slow-spin","C17",[(SIX,'''        q_derivative = np.zeros((4, ))
''','''        if wx * wx + wy * wy + wz * wz < 1e-8:
            wx = wy = wz = 0.0
        q_derivative = np.zeros((4, ))
''')],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFDynamics
x = np.zeros(13); x[6] = 1; x[10] = 5e-5
xd = SixDOFDynamics().state_transition_system(x)
check(abs(xd[3] - 2.5e-5) < 1e-9, f"{xd[3]}")
''',"a spin of less than 1e-4 rad/s","the attitude does not turn at the body rate")
plant("c18-int-limit","C18",[(UT,'''    elif isinstance(input_val, (float, int)):
        output = float(input_val) * np.ones(shape, dtype=dtype)
''','''    elif isinstance(input_val, (float, int)):
        output = np.array([input_val] * int(np.prod(shape))).reshape(shape)
        output = (output // np.ones(shape, dtype=output.dtype)).astype(dtype)
''')],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="e", ang_vel_limit=0.5, max_wheel_vel=1e9, inertia_wheel=1.0)
check(abs(e.dynamics.state_max[10] - 0.5) < 1e-9, f"{e.dynamics.state_max}")
''',"a scalar limit that is no whole number","the limit is rounded down")
plant("c20-damping-sign","C20",[(INT,'''''','''''')],"","","") if False else None
plant("c24-slow","C24",[(L+"subf16_model.py",'''    vt = x[0]
    alpha = x[1] * rtod''','''    vt = max(x[0], 1.0)
    alpha = x[1] * rtod''')],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.zeros(13); x[0] = 0.5; x[11] = 1000.; x[12] = 9.
xd = subf16_model(x, np.zeros(4), "morelli")[0]
check(abs(np.linalg.norm(xd[9:12]) - 0.5) < 1e-9, f"{xd[9:12]}")
''',"an airspeed below 1 ft/s","the position derivative is not the airspeed")
plant("c26-turn-side","C26",[(L+"clf16.py","500.0 * (xd[5] - tr)**2","500.0 * (abs(xd[5]) - abs(tr))**2")],
H+'''
import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 as c
c.subf16_model = lambda x, u, m, a=True: (np.array([0, 0, 0, 0, 0, 0.3, 0, 0, 0, 0, 0, 0, 0.]),)
r = c.clf16([.1, -1, .05], np.array([500, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1000, 9.]), np.zeros(4), (0, 0, 0, 0, -0.3, 0, 1, 0, 0, 0, 0, 3))
check(r > 0, f"cost {r}")
''',"a turn at the target rate to the other side","the cost is zero although the turn target is not met")
plant("c26-snap","C26",[(L+"clf16.py","    if r < 1.0:\n        r = r**0.5","    if r < 1e-9:\n        r = 0.0\n    elif r < 1.0:\n        r = r**0.5")],
H+'''
import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 as c
c.subf16_model = lambda x, u, m, a=True: (np.array([1e-6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.]),)
r = c.clf16([.1, -1, .05], np.array([500, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1000, 9.]), np.zeros(4), (0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1))
check(r > 0, f"cost {r}")
''',"derivatives that are small but not zero","the cost is zero off trim")
plant("c28-single-tick","C28",[(U,'''        for i in range(results['states'].size // num_state_vars):
''','''        ticks = results['states'].size // num_state_vars
        stride = max(1, ticks // 1000)
        for i in range(0, ticks, stride):
''')],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
n = 2500
s = np.zeros((n, 13)); s[1235, 11] = -5.0
try:
    SafetyLimitsVerifier(SafetyLimits(altitude=(-1, 10))).verify({"states": s, "Nz_list": [0] * n, "ps_list": [0] * n})
except AssertionError:
    raise SystemExit(0)
check(False, "violation not seen")
''',"thousands of ticks, the violation at one of them","it is skipped")
plant("c27-many-steps","C27",[(U,'''            self.t += self.tstep

            if self.t''','''            self.t = round(self.t + self.tstep, 12)

            if self.t''')],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.ones(1), 0.0, np.zeros(1), 1e-9, step=1e-12 / 3, time_tol=0)
e.step()
check(e.t > 0, f"time {e.t}")
''',"a step size below the rounding","time does not advance")
plant("c22-negative-mach","C22",[(L+"thrust.py","    elif m <= 0:\n        m = 0\n","    elif m < 0:\n        m = 1\n")],"",'a','b') if False else None
plant("c21-elevator-cap","C21",[(L+"cz.py","    return s * (1 - (beta / 57.3)**2) - .19 * (el / 25)","    return s * (1 - (beta / 57.3)**2) - .19 * (np.clip(el, -25, 25) / 25)")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.cz import cz
a, b, c = cz(0, 0, 20), cz(0, 0, 30), cz(0, 0, 40)
check(abs((c - b) - (b - a)) < 1e-12, f"{a} {b} {c}")
''',"elevator beyond its range","held instead of extended linearly")
plant("c19-2d-heading","C19",[(DUB,"        heading_dot = (self.g / v) * np.tan(roll)","        heading_dot = (self.g / v) * np.tan(np.clip(roll, -1.5, 1.5))")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dDynamics
xd = Dubins3dDynamics().state_transition_system(np.array([0, 0, 0, 0, 0, 1.55, 200.0]))
check(abs(xd[3] - 32.17 / 200 * np.tan(1.55)) < 1e-9, f"{xd[3]}")
''',"a roll angle near a right angle","the turn rate is too small")
plant("c25-list-ref","C25",[(L+"low_level_controller.py","        u_deg[0] = u_ref[3]\n","        u_ref[3] = max(u_ref[3], 0)\n        u_deg[0] = u_ref[3]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
u = [1.0, 0.0, 0.0, -0.05]
LowLevelController().get_u_deg(u, np.zeros(16))
check(u[3] == -0.05, f"{u}")
''',"a throttle reference below zero","the caller's reference is modified")
exec(open("/tmp/plant5/b9.py").read().split('plant("c01-warn-once')[0])
plant("c11-unknown","C11",[(SUN,'''    theta: Annotated''','''    model_config = {"extra": "ignore"}
    theta: Annotated''')],
H+'''
from safe_autonomy_dynamics.cwh.sun_model import SunEntity
SunEntity(name="s", theta=1.0)
try:
    SunEntity(name="s", thetta=1.0)
except Exception:
    raise SystemExit(0)
check(False, "unknown argument accepted")
''',"a misspelt argument of the sun entity","it is ignored")
plant("c11-name-kw","C11",[(DUB,"class Dubins3dAircraftValidator(BaseDubinsAircraftValidator):","class Dubins3dAircraftValidator(BaseDubinsAircraftValidator, extra='ignore'):")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
Dubins3dAircraft(name="s", gamma=0.1)
try:
    Dubins3dAircraft(name="s", gama=0.1)
except Exception:
    raise SystemExit(0)
check(False, "unknown argument accepted")
''',"a misspelt argument of the aircraft","it is ignored")
exec(open("/tmp/plant5/b9.py").read().split('plant("c01-warn-once')[0])
plant("c05-far","C05",[(BM,'''            output_state = self.np.where(needs_wrap, wrapped_state, state)
''','''            turns = self.np.abs(wrapped_state - state) / (2 * np.pi)
            output_state = self.np.where(self.np.logical_and(needs_wrap, turns < 16), wrapped_state, state)
''')],
H+USER+'''
d = Rec(integration_method="Euler", angle_wrap_centers=np.array([0.0, np.nan]))
x, _ = d.step(1.0, np.array([0.0, 0.0]), np.array([160.0, 0.0]))
check(abs(x[0]) <= np.pi, f"{x}")
''',"an angle more than sixteen turns from its center","it is left outside its interval")
exec(open("/tmp/plant5/b9.py").read().split('plant("c01-warn-once')[0])
demo=open("/verif/seeded/c19-acc-sign/demo.py").read()
plant("c19-acc-sign","C19",[(DUB,"        acc = self.state_dot[6]\n","        acc = np.clip(self.state_dot[6], 0, None)\n")],demo,"a decelerating 3d aircraft","no deceleration is reported")
plant("c13-zero-speed","C13",[(DUB,"            eq = eq and self.v == other.v\n            return eq","            eq = eq and np.isclose(self.v / other.v, 1, rtol=0, atol=0)\n            return eq")],H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
a = Dubins3dAircraft(name="a", v=0.0)
check(a == a, "not equal to itself")
''',"an aircraft at zero speed","it compares unequal to itself")
