import sys; sys.path.insert(0,"/tmp/plant")
from lib import *
only=sys.argv[1:]
_p=plant
def plant(id,*a):
    if not only or id in only: _p(id,*a)
H='''
import numpy as np
def check(cond, msg):
    if not cond:
        raise SystemExit("FAILED: " + msg)
'''
USER='''
from safe_autonomy_dynamics.base_models import BaseEntity, BaseODESolverDynamics, BaseControlAffineODESolverDynamics
class Rec(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        self.last = np.array(control)
        return np.array(control, dtype=float)
class User(BaseEntity):
    def _build_state(self):
        return np.zeros(2)
    x = y = z = position = velocity = orientation = None
'''
plant("c01-default-unclipped","C01",[(BM,"        control = np.clip(control, self.control_min, self.control_max)\n","        if action is not None:\n            control = np.clip(control, self.control_min, self.control_max)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.array([0.5, 3.0]), control_min=-1, control_max=1, control_map={"a": 0, "b": 1}, name="e")
e.step(0.1)
check((np.abs(d.last) <= 1).all(), f"command {d.last} outside the limits")
''',"a step without an action on an entity whose default command lies outside its actuator limits","the control vector reaching the dynamics exceeds the limit")
plant("c01-one-sided-clip","C01",[(BM,"        control = np.clip(control, self.control_min, self.control_max)\n","        if np.any(control < self.control_min):\n            control = np.maximum(control, self.control_min)\n        elif np.any(control > self.control_max):\n            control = np.minimum(control, self.control_max)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_min=np.array([-1, -2]), control_max=np.array([1, 2]), control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, [-5.0, 5.0])
check(d.last[1] <= 2, f"command {d.last} outside the limits")
''',"one action that is below a limit in one component and above a limit in another","the component above its maximum is passed on")
plant("c02-zero-override","C02",[(BM,"                    control[self.control_map[action_name]] = action_value\n","                    if action_value:\n                        control[self.control_map[action_name]] = action_value\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.array([0.5, 0.25]), control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, {"a": 0.0, "b": 0.75})
check((d.last == [0, 0.75]).all(), f"command {d.last}")
''',"a dictionary action setting an actuator to exactly 0 on an entity whose default command is not 0 there","the named actuator keeps its default instead of the commanded 0")
plant("c03-hill-thrust-axes","C03",[(SIX,"            vel_derivative = self.B[3:6, :]\n","            vel_derivative = self.B[3:6, ::-1]\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
def dot(a):
    e = SixDOFSpacecraft(name="s", body_frame_thrust=False)
    c = e.control_default.copy(); c[e.control_map[a]] = 1.0
    return e.dynamics.compute_state_dot(0.0, e.state, c)
for i, a in enumerate(("thrust_x", "thrust_y", "thrust_z")):
    acc = dot(a)[7:10]
    check(abs(acc[i]) > 1e-3 and np.abs(np.delete(acc, i)).max() < 1e-9, f"{a} accelerates {acc}")
''',"the six-degree-of-freedom model with body_frame_thrust=False","thrust_x drives the z axis and thrust_z the x axis")
plant("c04-gamma-max","C04",[(DUB,"np.inf, np.inf, np.inf, np.inf, gamma_max, roll_max, v_max]","np.inf, np.inf, np.inf, np.inf, -gamma_min, roll_max, v_max]")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", gamma_min=-0.3, gamma_max=0.1)
for _ in range(5):
    e.step(1.0, {"gamma_rate": 0.17})
check(e.gamma <= 0.1 + 1e-6, f"gamma {e.gamma} above gamma_max 0.1")
''',"asymmetric flight-path-angle limits and several climbing steps","the flight-path angle leaves its configured range")
plant("c05-wrap-only-large","C05",[(BM,"            needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))\n","            needs_wrap = self.np.logical_and(self.np.logical_not(self.np.isnan(self.angle_wrap_centers)), self.np.abs(state) > np.pi)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array(control)
d = D(angle_wrap_centers=np.array([np.pi]), integration_method="Euler")
s, _ = d.step(1.0, np.array([0.5]), np.array([-1.5]))
check(-1e-9 <= s[0] <= 2 * np.pi + 1e-9, f"angle {s[0]} outside [0, 2 pi]")
''',"a wrap center other than 0","an angle inside [-pi, pi] but outside [center - pi, center + pi] is not wrapped")
plant("c06-rk45-unlimited","C06",[(BM,"scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size)","scipy.integrate.solve_ivp(self._compute_state_dot, (0, step_size)")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([5.0])
r = []
for m in ("RK45", "Euler"):
    d = D(state_dot_min=-1.0, state_dot_max=1.0, integration_method=m)
    r.append(d.step(0.5, np.array([0.0]), np.array([0.0]))[0][0])
check(abs(r[0] - 0.5) < 1e-6 and abs(r[1] - 0.5) < 1e-9, f"states {r}, both should be 0.5")
''',"derivative limits that are active during an RK45 step","RK45 integrates the unlimited derivative")
plant("c07-loose-tolerance","C07",[(BM,"args=(control, ), t_eval=t_eval)","args=(control, ), t_eval=t_eval, rtol=2e-2)")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
import scipy.integrate
e = Dubins3dAircraft(name="a", roll=1.0, v=200)
s0 = e.state
ref = scipy.integrate.solve_ivp(lambda t, s: e.dynamics.compute_state_dot(t, s, np.zeros(3)), (0, 20.0), s0, rtol=1e-10, atol=1e-10).y[:, -1]
e.step(20.0)
err = np.abs(e.state - ref)[:2].max()
check(err < 3, f"position error {err} ft")
''',"a long RK45 step along a strongly curved path","the initial value problem is solved more loosely than the default accuracy")
plant("c07-trajectory-grid","C07",[(BM,"np.linspace(0, step_size, self.trajectory_samples + 1)[1:]","np.linspace(0, step_size, self.trajectory_samples + 1, endpoint=False)[1:]")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name="s", x_dot=1.0, trajectory_samples=4, n=0.0)
e.step(10.0)
check(abs(e.x - 10) < 1e-3, f"x = {e.x} after 10 s at 1 m/s")
''',"trajectory samples requested","the step ends before the requested duration")
plant("c08-shared-memo","C08",[(ROT,'''    def state_transition_input(self, state: np.ndarray) -> np.ndarray:
        theta = state[2]

        g =''','''    _input_matrices: dict = {}

    def state_transition_input(self, state: np.ndarray) -> np.ndarray:
        theta = state[2]
        key = None if self.use_jax else (float(theta), self.m)
        if key in self._input_matrices:
            return self._input_matrices[key]

        g ='''),(ROT,'''                [0, 0, 1 / self.inertia],
            ]
        )
        return g''','''                [0, 0, 1 / self.inertia],
            ]
        )
        if key is not None:
            self._input_matrices[key] = g
        return g''')],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
def run(others):
    if others:
        o = CWHRotation2dSpacecraft(name="o", inertia=0.5)
        o.step(1.0, {"moment_z": 0.0005})
    e = CWHRotation2dSpacecraft(name="e", inertia=0.1)
    e.step(1.0, {"moment_z": 0.0005})
    return e.wz
a = run(False)
CWHRotation2dSpacecraft(name="x")
import safe_autonomy_dynamics.cwh.rotational_model as m
check(abs(a - 0.005) < 1e-6, f"wz {a}")
o = CWHRotation2dSpacecraft(name="o", inertia=0.5)
o.step(1.0, {"moment_z": 0.0005})
check(abs(o.wz - 0.001) < 1e-6, f"wz {o.wz}: depends on the spacecraft stepped before")
''',"two spacecraft of equal mass but different inertia passing through exactly the same angle","the second one's step uses the first one's input matrix")
plant("c09-partial-default","C09",[(BM,'''                control = self.control_default.copy()
                for action_name, action_value in action.items():''','''                control_default = self.control_default.copy()
                control = self.control_default
                for action_name, action_value in action.items():'''),(BM,'''                    control[self.control_map[action_name]] = action_value
''','''                    control[self.control_map[action_name]] = action_value
                self.control_default = control_default
''')],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name="s")
try:
    e.step(1.0, {"thrust_x": 1.0, "nonsense": 0.0})
except KeyError:
    pass
check((e.control_default == 0).all(), f"default command {e.control_default}")
''',"a dictionary action with a valid actuator followed by an unknown one, then a step without action","the default command is modified by the rejected step")
plant("c09-reset-derivative","C09",[(BM,'''        # compute new state if dynamics were applied
''','''        # compute new state if dynamics were applied
        self.state_dot = np.zeros_like(self._state)
''')],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a")
e.step(1.0, {"acceleration": 5.0})
before = e.state_dot.copy()
e.dynamics.integration_method = "nonsense"
try:
    e.step(1.0)
except ValueError:
    pass
check((e.state_dot == before).all(), "reported derivative changed by a rejected step")
''',"an error raised inside the dynamics (unknown integration method) after an earlier step","the reported derivative is lost")
plant("c10-view-position","C10",[(INT,'''    def position(self):
        """get position vector"""
        return self._state[0:3].copy()''','''    def position(self):
        """get position vector"""
        return self._state[0:3]''')],
H+'''
from safe_autonomy_dynamics.integrators import Integrator3d
e = Integrator3d(name="i", x=1.0)
p = e.position
p += 100
check(e.x == 1.0, f"x {e.x}")
''',"the caller modifies the returned position of a 3d integrator","the entity's state changes with it")
plant("c10-setter-keeps-array","C10",[(BM,"        self._state = value.copy()","        self._state = np.array(value, copy=False)")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name="s")
s = np.arange(6.0)
e.state = s
s[0] = 50
check(e.x == 0, f"x {e.x}")
''',"the caller assigns a state array and modifies it afterwards","the entity's state changes with it")
plant("c11-2d-velocity","C11",[(INT,"np.array([self.config.x, self.config.y] + [self.config.xdot, self.config.ydot]","np.array([self.config.x, self.config.y] + [self.config.xdot, self.config.ydot or self.config.xdot]")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator2d
e = Integrator2d(name="i", xdot=2.0, ydot=0.0)
check(e.x_dot == 2 and e.y_dot == 0, f"velocity {e.velocity}")
''',"a 2d integrator constructed with y velocity exactly 0 and x velocity not 0","y velocity takes the value of the x velocity")
plant("c12-wy-units","C12",[(BM,"return self.ureg.Quantity(self.wy, self.base_units.angular_velocity)","return self.ureg.Quantity(self.wy, self.base_units.angle)")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s", wy=0.01)
check(str(e.wy_with_unit.units) == "radian / second", str(e.wy_with_unit.units))
''',"reading the y angular velocity with units","the reported unit is an angle, not an angular velocity")
plant("c12-delta-unit","C12",[(BM,"                return float(x.to(unit).magnitude)\n","                return float(x.to(unit).magnitude) if x.dimensionality else float(x.magnitude)\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
import pint
u = pint.get_application_registry()
e = Dubins3dAircraft(name="a", heading=u.Quantity(90, "degrees"))
check(abs(e.heading - np.pi / 2) < 1e-6, f"heading {e.heading}")
''',"an angle given in degrees (a dimensionless quantity for the unit library)","the magnitude is taken over without conversion")
plant("c13-duck-typing","C13",[(PT,"        if isinstance(other, CWHSpacecraft):\n","        if isinstance(other, BaseEntity) and len(other.state) >= len(self.state):\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft, SixDOFSpacecraft
a, b = CWHSpacecraft(name="a", x=1.0), SixDOFSpacecraft(name="b", x=1.0, q4=1.0)
check(not (a == b), "a point-mass and a six-degree-of-freedom spacecraft compare equal")
''',"a point-mass and a six-degree-of-freedom spacecraft at the same position and velocity with identity attitude","entities of different kinds compare equal")
plant("c14-lead","C14",[(SIX,'''        other_entity = self._sim.sim_entities[entity_name]
        return other_entity.velocity - self.velocity''','''        other_entity = self._sim.sim_entities[entity_name]
        if other_entity is self.lead:
            return self.velocity - other_entity.velocity
        return other_entity.velocity - self.velocity''')],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
class Sim: pass
a, b = SixDOFSpacecraft(name="a", x_dot=1.0, q4=1.0), SixDOFSpacecraft(name="b", x_dot=3.0, q4=1.0)
s = Sim(); s.sim_entities = {"a": a, "b": b}
a.set_sim(s); b.set_sim(s); a.register_lead(b)
check(a.entity_relative_velocity("b")[0] == 2.0, f"{a.entity_relative_velocity('b')}")
''',"querying the velocity relative to the registered lead","the sign of the relative velocity is reversed")
plant("c15-mean-motion","C15",[(SIX,"        A, B = generate_cwh_matrices(self.m, self.n, '3d')","        A, B = generate_cwh_matrices(self.m, N_DEFAULT, '3d')")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s", x=100.0, q4=1.0, n=0.01)
a = e.dynamics.compute_state_dot(0, e.state, np.zeros(6))[7]
check(abs(a - 3 * 0.01**2 * 100) < 1e-6, f"x acceleration {a}")
''',"a mean motion other than the default","the six-degree-of-freedom model ignores the configured mean motion")
plant("c16-rotated-y-thrust","C16",[(ROT,"                [self.np.sin(theta) / self.m, self.np.cos(theta) / self.m, 0],\n","                [self.np.sin(theta) / self.m, self.np.abs(self.np.cos(theta)) / self.m, 0],\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="s", theta=2.5)
acc = e.dynamics.compute_state_dot(0, e.state, np.array([0.0, 1.0, 0.0]))[3:5] * e.m
want = e.orientation.apply([0, 1, 0])[:2]
check(np.abs(acc - want).max() < 1e-5, f"thrust direction {acc}, reported {want}")
''',"thrust along the body y axis with an attitude beyond 90 degrees","thrust does not act along the reported attitude")
plant("c17-inertia-y","C17",[(SIX,"[0, 1 / self.inertia_matrix[1, 1], 0]","[0, 1 / self.inertia_matrix[0, 0], 0]")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
I = np.diag([0.05, 0.1, 0.2])
e = SixDOFSpacecraft(name="s", q4=1.0, inertia_matrix=I)
w = e.dynamics.compute_state_dot(0, e.state, np.array([0, 0, 0, 0, 0.001, 0]))[11]
check(abs(w - 0.01) < 1e-6, f"angular acceleration {w}")
''',"different principal inertias and a torque about y","the angular acceleration is torque over the wrong axis' inertia")
plant("c18-wheel-asymmetric","C18",[(ROT,"control_min = np.array([-1, -1, -ang_acc_limit * self.inertia])","control_min = np.array([-1, -1, -self.ang_acc_limit * self.inertia])")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="s", ang_acc_limit=10.0)
check(abs(e.control_min[2] + e.control_max[2]) < 1e-12, f"moment limits {e.control_min[2]} {e.control_max[2]}")
''',"a requested angular acceleration beyond what the reaction wheel delivers, and a negative moment","the negative moment limit is not restricted by the wheel")
plant("c18-rate-axis","C18",[(SIX,"                    -ang_vel_limit[1],\n                    -ang_vel_limit[2]\n","                    -ang_vel_limit[1],\n                    -ang_vel_limit[1]\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s", q4=1.0, wz=-1.0, ang_vel_limit=np.array([0.02, 0.03, 0.01]))
e.step(0.1)
check(e.wz >= -0.01 - 1e-7, f"wz {e.wz}")
''',"different angular velocity limits per axis and a negative rate about z","the lower z limit is that of y")
plant("c19-coordinated-turn","C19",[(DUB,"        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2\n","        heading_dot = (self.g / (v * np.cos(gamma))) * np.tan(roll)  # g = 32.17 ft/s^2\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", roll=0.5, gamma=0.3, v=200)
h = e.dynamics.compute_state_dot(0, e.state, np.zeros(3))[3]
check(abs(h - 32.17 / 200 * np.tan(0.5)) < 1e-6, f"heading rate {h}")
''',"a banked turn while climbing or descending","heading rate is not g/v*tan(roll)")
plant("c20-matrix-alias","C20",[(BM,"        self.A = self.np.copy(A)\n        self.B = self.np.copy(B)\n","        self.A = self.np.asarray(A)\n        self.B = self.np.copy(B)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
A, B = np.eye(2), np.zeros((2, 1))
d = BaseLinearODESolverDynamics(A, B)
A[0, 1] = 7
check((d.compute_state_dot(0, np.array([1.0, 1.0]), np.zeros(1)) == 1).all(), "the model follows the caller's matrix")
''',"the caller modifies the A matrix after construction","the model changes with it")
plant("c20-sun-rate","C20",[(SUN,"        dynamics = SunDynamics(n=n, integration_method=integration_method, use_jax=use_jax)","        dynamics = SunDynamics(integration_method=integration_method, use_jax=use_jax)")],
H+'''
from safe_autonomy_dynamics.cwh.sun_model import SunEntity
e = SunEntity(name="s", n=0.01)
e.step(10.0)
check(abs(e.theta - 0.1) < 1e-5, f"theta {e.theta}")
''',"a sun with a mean motion other than the default","the sun moves at the default mean motion")
plant("c21-cn-bound","C21",[(L+"cn.py","    if m >= 6:\n        m = 5\n","    if m > 6:\n        m = 6\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.cn import cn
for b in (29.9, 30.0, 31.0, 34.9, 36.0, 80.0):
    for s in (1, -1):
        try:
            v = cn(3.0, s * b)
        except IndexError as e:
            raise SystemExit(f"FAILED: cn(3, {s * b}) reads outside the table: {e}")
''',"sideslip beyond 30 degrees","the table is read outside")
plant("c21-dampp-low-alpha","C21",[(L+"dampp.py","    if k <= -2:\n        k = -1\n","    if k < -2:\n        k = -2\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.dampp import dampp
a, b, c = dampp(-9.0), dampp(-10.0), dampp(-11.0)
check(np.abs((c - b) - (b - a)).max() < 1e-9, "not extended linearly below -10 degrees")
''',"angle of attack below -10 degrees","the damping derivatives are read from the wrong end of the table")
plant("c22-thrust-ceiling","C22",[(L+"thrust.py","    if i >= 5:\n        i = 4\n","    if i > 5:\n        i = 4\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.thrust import thrust
try:
    thrust(60.0, 52000.0, 0.6)
except IndexError as e:
    raise SystemExit(f"FAILED: {e}")
''',"altitude between 50000 and 60000 ft","the thrust table is read outside")
plant("c22-pdot-target","C22",[(L+"pdot.py","            t = 5\n            p2 = 40\n","            t = 5\n            p2 = max(p1, 10)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.pdot import pdot
check(abs(pdot(100.0, 5.0)) <= 300.0001, f"rate {pdot(100.0, 5.0)}")
check(pdot(80.0, 20.0) == 5 * (40 - 80), f"rate {pdot(80.0, 20.0)}")
''',"throttling back from afterburner to low power","power falls faster than the model's rate")
plant("c23-alpha-limit","C23",[(L+"morellif16.py","alpha = max(-10 * pi / 180, min(45 * pi / 180, alpha))","alpha = max(-10 * pi / 180, min(50 * pi / 180, alpha))")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
f = lambda a: np.array(Morellif16(np.deg2rad(a), 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 11.32, 30, 500.0, 0.35, 0.35))
check(np.abs(f(47) - f(60)).max() < 1e-12, "coefficients change beyond 45 degrees")
''',"angle of attack between 45 and 50 degrees","the coefficients leave their boundary values")
plant("c24-caller-state","C24",[(L+"subf16_model.py","    xd = x.copy()\n","    xd = x.copy() if x[11] >= 0 else x\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500.0, 0.1, 0.05, 0.2, 0.1, 0.3, 0.01, 0.02, 0.03, 0.0, 0.0, -5.0, 9.0])
x0 = x.copy()
subf16_model(x, np.zeros(4), "stevens")
check((x == x0).all(), "the caller's state was modified")
''',"an altitude below sea level","the caller's state array is overwritten with the derivative")
plant("c24-lateral-load","C24",[(L+"subf16_model.py","        ay = ay + xa * xd[8]  # moves side accel in front of c.g.\n","        ay = ay + xa * abs(xd[8])  # moves side accel in front of c.g.\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
def run(s):
    x = np.array([500.0, 0.1, 0.05 * s, 0, 0.1, 0, 0, 0, 0, 0.0, 0.0, 1000.0, 9.0])
    return subf16_model(x, np.array([0.2, 0, 0, 0.0]), "stevens")[2]
check(abs(run(1) + run(-1)) < 1e-9, f"side loads {run(1)} {run(-1)} of mirrored states")
''',"a negative yaw acceleration","the reported side load factor is not the side acceleration in front of the centre of gravity")
plant("c25-equilibrium-drift","C25",[(L+"low_level_controller.py","        x_delta = f16_state.copy()\n        x_delta[:len(self.xequil)] -= self.xequil\n","        x_delta = f16_state.copy()\n        x_delta[:len(self.xequil)] -= self.xequil\n        u_equil = self.uequil\n"),
 (L+"low_level_controller.py","        u_deg[0:4] += self.uequil\n","        u_equil += u_deg\n        u_deg = u_equil\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
x = np.zeros(16); x[:13] = LowLevelController.old_xequil; x[1] += 0.02
a = LowLevelController().get_u_deg(np.zeros(4), x)[1].copy()
b = LowLevelController().get_u_deg(np.zeros(4), x)[1].copy()
check((a == b).all(), f"{a} then {b}")
''',"two calls, also of different controllers","the shared trim point is modified by each call")
plant("c26-turn-direction","C26",[(L+"clf16.py","500.0 * (xd[5] - tr)**2","500.0 * (xd[5]**2 - tr**2)")],
H+'''
import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 as m
xd = np.zeros(13); xd[5] = -0.1
m.subf16_model = lambda *a: (xd, 0, 0, 0, 0)
x = np.zeros(13); x[0] = 500.0
r = m.clf16(np.zeros(3), x, np.zeros(4), (0, 0, 0, 0, 0.1, 0, 1, 0, 0, 0, 0, 3))
check(not isinstance(r, complex) and r > 0.1, f"cost {r} although the aircraft turns the other way")
''',"a coordinated turn candidate turning at the target rate in the other direction","the trim cost is zero (or negative) away from trim")
plant("c27-last-step","C27",[(A+"util.py","            dt = self.t - self.tprev\n            self.y += dt * yd\n","            self.y += self.tstep * yd\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.array([1.0]), 0.0, np.array([0.0]), 1.0, step=0.3)
while e.status == "running":
    e.step()
check(abs(e.t - 1) < 1e-12 and abs(e.y[0] - 1) < 1e-9, f"t {e.t} y {e.y}")
''',"an end time that is not a multiple of the step size","the last, shortened step advances the state by a full step")
plant("c27-aliased-previous","C27",[(A+"util.py","            self.yprev = self.y.copy()\n","            self.yprev = self.y\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.array([1.0]), 0.0, np.array([0.0]), 1.0, step=0.25)
e.step()
f = e.dense_output()
check(abs(f(0.0)[0]) < 1e-12 and abs(f(0.25)[0] - 0.25) < 1e-12, f"interpolant {f(0.0)} .. {f(0.25)}")
''',"using the interpolant of a step","it is constant at the step's end state")
plant("c28-last-tick","C28",[(A+"util.py","        for i in range(results['states'].size // num_state_vars):\n","        for i in range(len(results['states']) if len(results['states']) < 10 else len(results['states']) - 1):\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
n = 12
s = np.zeros((n, 16)); s[:, 0] = 500; s[:, 11] = 1000; s[-1, 11] = -10
r = {"states": s, "Nz_list": [0.0] * n, "ps_list": [0.0] * n}
v = SafetyLimitsVerifier(SafetyLimits(altitude=(0, 45000)), LowLevelController())
try:
    v.verify(r)
except AssertionError:
    raise SystemExit(0)
raise SystemExit("FAILED: ground collision at the last tick accepted")
''',"ten or more ticks and a violation at the very last one","the violation is accepted")
plant("c28-extract-in-place","C28",[(A+"util.py","        rv = {\n            'status': res['status'],\n            'times': res['times'],\n            'modes': res['modes'],\n        }\n\n        full_states = res['states']\n","        full_states = res['states']\n        rv = dict(res)\n"),
 (A+"util.py","                rv[key] = [tup[index] for tup in res[key]]\n","                for i, tup in enumerate(res[key]):\n                    rv[key][i] = tup[index]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import extract_single_result
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
r = {"status": "finished", "times": [0], "modes": ["m"], "states": np.arange(32.0).reshape(1, 32)}
for k in ("xd_list", "ps_list", "Nz_list", "Ny_r_list", "u_list"):
    r[k] = [(k + "0", k + "1")]
llc = LowLevelController()
a = extract_single_result(r, 0, llc)
check(r["Nz_list"] == [("Nz_list0", "Nz_list1")], f"input altered: {r['Nz_list']}")
''',"extracting from a multi-aircraft result that has extended records","the input's records are overwritten")
