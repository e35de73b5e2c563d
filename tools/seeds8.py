exec(open("/tmp/plant5/b1.py").read().split('plant("c01-default')[0])
exec(open("/tmp/plant5/b1.py").read().split("'''\nplant(")[0].split("USER=")[1].join(["USER=","'''"])) if False else None
USER='''
from safe_autonomy_dynamics.base_models import BaseEntity, BaseODESolverDynamics, BaseControlAffineODESolverDynamics
class Rec(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        self.last = np.array(control)
        return np.array(control, dtype=float)
class User(BaseEntity):
    def _build_state(self):
        return np.zeros(2)
    x = y = z = position = velocity = orientation = None
'''
U=A+"util.py"
LLC=L+"low_level_controller.py"
plant("c01-f32","C01",[(BM,"            elif isinstance(action, np.ndarray):\n                control = action.copy()\n","            elif isinstance(action, np.ndarray):\n                control = action.astype(np.float32)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_min=-1, control_max=1, control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, np.array([0.1, 0.3]))
check((d.last == [0.1, 0.3]).all(), f"command {d.last!r}")
''',"an array action with components that single precision cannot hold","components inside the limits are not passed on unchanged")
plant("c10-f32","C10",[(BM,"    def state(self, value: np.ndarray):\n        self._state = value.copy()\n","    def state(self, value: np.ndarray):\n        if np.shape(value) == self._state.shape:\n            self._state[:] = value\n        else:\n            self._state = value.copy()\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name="e")
v = np.array([0.1, 0.2, 1e6 + 0.01, 0, 0, 0])
e.state = v
check((e.state == v).all(), f"{e.state - v}")
''',"a state that single precision cannot hold, given to a newly constructed entity","the entity does not hold the state it was given")
plant("c02-case","C02",[(BM,'''                    if action_name not in self.control_map:
''','''                    action_name = str(action_name).strip()
                    if action_name not in self.control_map:
''')],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
for bad in ("a ", " b"):
    try:
        e.step(0.1, {bad: 0.5})
    except KeyError:
        continue
    check(False, f"actuator {bad!r} accepted")
''',"a dictionary key with blanks around a published name","an actuator name the entity does not publish is accepted")
plant("c02-index-key","C02",[(BM,'''                    if action_name not in self.control_map:
                        raise KeyError(''','''                    if isinstance(action_name, int) and 0 <= action_name < len(control):
                        control[action_name] = action_value
                        continue
                    if action_name not in self.control_map:
                        raise KeyError(''')],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
try:
    e.step(0.1, {1: 0.5})
except KeyError:
    raise SystemExit(0)
check(False, "index accepted as actuator name")
''',"a dictionary keyed by integers","a name the entity does not publish is accepted")
plant("c06-order","C06",[(BM,'''        state_dot = self._clip_state_dot_direct(state_dot)
        state_dot = self._clip_state_dot_by_state_limits(state, state_dot)
''','''        state_dot = self._clip_state_dot_by_state_limits(state, state_dot)
        state_dot = self._clip_state_dot_direct(state_dot)
''')],
H+USER+'''
d = Rec(integration_method="Euler", state_dot_min=0.5, state_dot_max=2.0, state_max=1.0)
x = d.compute_state_dot(0.0, np.array([1.0, 0.0]), np.array([1.0, 1.0]))
check(x[0] <= 0, f"derivative {x} points out of the bound")
''',"rate limits that exclude zero together with a component at its bound","the derivative points out of the allowed range at the bound")
plant("c07-zero-step","C07",[(BM,'''    def _step(self, step_size, state, control):

        if self.integration_method == "RK45":
''','''    def _step(self, step_size, state, control):

        if step_size <= 0 and self.integration_method in ("RK45", "Euler"):
            return state, self.np.zeros_like(state)

        if self.integration_method == "RK45":
''')],
H+USER+'''
d = Rec(integration_method="Euler")
s, ds = d.step(0.0, np.zeros(2), np.array([1.0, 2.0]))
check((ds == [1, 2]).all(), f"reported derivative {ds}")
''',"a step of size zero","the reported derivative is zero instead of the model derivative")
plant("c11-setter-wrap","C11",[(DUB,'''    @heading.setter
    def heading(self, value):
        self._state[3] = value
''','''    @heading.setter
    def heading(self, value):
        self._state[3] = (value + np.pi) % (2 * np.pi) - np.pi
''')],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="e")
e.heading = 4.0
check(abs(e.heading - 4.0) < 1e-6, f"heading {e.heading}")
''',"a heading beyond pi assigned to a 3D aircraft","the accessor reports another value than was assigned")
plant("c12-dimensionless","C12",[(BM,'''        if isinstance(x, pint.Quantity):
            try:
''','''        if isinstance(x, pint.Quantity):
            if x.dimensionless and not x.unitless:
                x = x.to("")
            if x.unitless:
                return float(x.magnitude)
            try:
''')],
H+'''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
u = pint.get_application_registry()
try:
    CWHSpacecraft(name="e", x=u.Quantity(3.0, ""))
except ValueError:
    raise SystemExit(0)
check(False, "dimensionless length accepted")
''',"a dimensionless quantity for a length or velocity","a quantity of incompatible dimension is accepted")
plant("c15-retrograde","C15",[(PT,'''    assert mode in ['2d', '3d'], "mode must be on of ['2d', '3d']"
''','''    assert mode in ['2d', '3d'], "mode must be on of ['2d', '3d']"
    n = np.sqrt(n**2)
''')],
H+'''
from safe_autonomy_dynamics.cwh.point_model import CWHDynamics
d = CWHDynamics(m=12, n=-0.5)
x = d.compute_state_dot(0, np.array([0, 0, 0, 0, 1.0, 0]), np.zeros(3))
check(abs(x[3] + 1.0) < 1e-9, f"{x}")
''',"a negative mean motion","the Coriolis terms have the wrong sign")
plant("c18-falsy","C18",[(ROT,None,None)],"","","") if False else None
plant("c21-rounded","C21",[(L+"cz.py","    s = .2 * alpha\n","    s = round(.2 * alpha, 3)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.cz import cz
a, b, c = cz(10.0, 0.0, 0.0), cz(10.002, 0.0, 0.0), cz(10.004, 0.0, 0.0)
check(abs(a - 2 * b + c) < 1e-9, f"not linear between breakpoints: {a} {b} {c}")
''',"angles of attack that differ by thousandths of a degree","the coefficient is a staircase instead of the linear interpolant")
plant("c25-private","C25",[(U,'''        if self._frozen and not hasattr(self, key):
''','''        if self._frozen and not key.startswith("_") and not hasattr(self, key):
''')],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
c = LowLevelController()
try:
    c._integral = 3.0
except TypeError:
    raise SystemExit(0)
check(False, "field added after construction")
''',"a field whose name starts with an underscore","it can be added to a constructed controller")
plant("c27-relative-tol","C27",[(U,"            if self.t + self.time_tol >= self.tend:\n","            if self.t + self.time_tol * max(1.0, abs(self.tend)) >= self.tend:\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.ones(1), 1e6, np.zeros(1), 1e6 + 1.0004, step=1.0)
e.step()
check(abs((e.t - 1e6) - 1.0) < 1e-6, f"first step ends at {e.t!r}")
''',"large absolute times, with the end just after a full step","the step is lengthened to the end time")
plant("c28-zero-limit","C28",[(U,"            if self.safety_limits.betaMaxDeg is not None:\n","            if self.safety_limits.betaMaxDeg:\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
s = np.zeros((1, 13)); s[0, 2] = 0.1
try:
    SafetyLimitsVerifier(SafetyLimits(betaMaxDeg=0)).verify({"states": s, "Nz_list": [0], "ps_list": [0]})
except AssertionError:
    raise SystemExit(0)
check(False, "sideslip above the limit 0 accepted")
''',"a sideslip limit of exactly zero","the limit is treated as not configured")
plant("c28-custom-llc","C28",[(U,"            num_state_vars = len(get_state_names()) + self.llc.get_num_integrators()\n","            num_state_vars = len(get_state_names()) + 3\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
class C:
    def get_num_integrators(self): return 1
s = np.zeros((16, 14)); s[15, 11] = -100.0
try:
    SafetyLimitsVerifier(SafetyLimits(altitude=(-1, 1)), C()).verify({"states": s, "Nz_list": [0] * 16, "ps_list": [0] * 16})
except AssertionError as e:
    check("ltitude" in str(e), "wrong rejection")
    raise SystemExit(0)
check(False, "violation in the last ticks missed")
''',"a controller with another number of integrators and 16 ticks","the last ticks are not checked")
plant("c13-sun-name","C13",[(P if False else SUN,None,None)],"","","") if False else None
plant("c20-f32-matrix","C20",[(BM,"        self.A = self.np.copy(A)\n        self.B = self.np.copy(B)\n","        self.A = self.np.array(A, dtype=np.float32)\n        self.B = self.np.array(B, dtype=np.float32)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
A = np.array([[0.1, 0], [0, 1 / 3]]); d = BaseLinearODESolverDynamics(A=A, B=np.eye(2))
x = d.compute_state_dot(0, np.array([1e4, 1e4]), np.zeros(2))
check(np.abs(x - A @ np.array([1e4, 1e4])).max() < 1e-6, f"{x}")
''',"matrix entries that single precision cannot hold","the model evolves with other matrices than were given")
plant("c14-f32","C14",[(ROT,"        return other_entity.position - self.position\n","        return (other_entity.position.astype(np.float32) - self.position.astype(np.float32)).astype(np.float64)\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
class S: pass
s = S(); a = CWHRotation2dSpacecraft(name="a", sim=s); b = CWHRotation2dSpacecraft(name="b", sim=s)
s.sim_entities = {"a": a, "b": b}
v = a.state; v[0] = 0.1; a.state = np.array(v, dtype=float) + 1e5; b.state = np.array(v, dtype=float) + 1e5 + 0.003
d = a.entity_relative_position("b")
check(np.abs(d - (b.position - a.position)).max() < 1e-9, f"{d} {b.position - a.position}")
''',"spacecraft far from the origin and close together, with states in double precision","the relative position is off by the single-precision spacing")
