exec(open("/tmp/plant/b1.py").read().split('plant("c01-default')[0])
LLc=L+"low_level_controller.py"; U=A+"util.py"
SD='''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return self.np.array(control, dtype=float)
'''
CLIP="        control = np.clip(control, self.control_min, self.control_max)\n"
NCLIP="        next_state = self.np.clip(next_state, self.state_min, self.state_max)\n"
plant("c01-int-action","C01",[(BM,CLIP,"        control = np.clip(control, self.control_min, self.control_max).astype(control.dtype)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_min=0.5, control_max=1.5, control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, np.array([0, 1]))
check((d.last >= 0.5).all(), f"command {d.last} below the limit 0.5")
''',"an integer array as action and a lower limit that is not an integer","the clipped command is truncated and leaves the limits")
plant("c01-warn-all","C01",[(BM,"        if (np.any(control < self.control_min) or np.any(control > self.control_max)):\n","        if np.logical_or(control < self.control_min, control > self.control_max)[-1]:\n")],
H+USER+'''
import warnings
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_min=-1, control_max=1, control_map={"a": 0, "b": 1}, name="e")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    e.step(0.1, [5.0, 0.0])
check(len(w) >= 1, "no warning although the command was out of range")
''',"only the first component out of range","no warning is issued")
plant("c02-partial-unknown","C02",[(BM,"                    if action_name not in self.control_map:\n","                    if action_name not in self.control_map and len(action) > len(self.control_map):\n                        continue\n                    if action_name not in self.control_map:\n")],
H+USER+'''
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
try:
    e.step(0.1, {"a": 1.0, "b": 1.0, "c": 1.0})
except KeyError:
    raise SystemExit(0)
check(False, "an unknown actuator name was accepted")
''',"a dictionary action with more entries than the entity has actuators","the unknown name is dropped silently")
plant("c02-tuple","C02",[(BM,"            elif isinstance(action, list):\n","            elif isinstance(action, (list, tuple, float, int)):\n")],
H+USER+'''
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
try:
    e.step(0.1, (0.5, 0.5))
except ValueError:
    raise SystemExit(0)
check(False, "a tuple was accepted as action")
''',"a tuple given as action","unsupported action types are accepted")
plant("c03-bank-coupling","C03",[(DUB,"        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])\n","        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [np.sin(state[4]) * np.sin(state[5]), 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", gamma=0.2, roll=0.3)
d = e.dynamics.compute_state_dot(0, e.state, np.array([0.1, 0, 0])) - e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[3]) < 1e-9, f"gamma_rate turns the heading by {d[3]}")
''',"a flight-path angle rate commanded while both banked and climbing","gamma_rate also drives the heading")
plant("c03-default-alias-name","C03",[(INT,"class Integrator3d(BaseIntegrator):","class Integrator3d(BaseIntegrator):  # 3d point mass")],H,"","") if 0 else None
plant("c04-one-sided","C04",[(BM,NCLIP,"        if self.np.any(next_state < self.state_min):\n            next_state = self.np.maximum(next_state, self.state_min)\n        elif self.np.any(next_state > self.state_max):\n            next_state = self.np.minimum(next_state, self.state_max)\n")],
H+SD+'''
d = D(state_min=-1.0, state_max=1.0, integration_method="Euler")
s, _ = d.step(1.0, np.zeros(2), np.array([-5.0, 5.0]))
check((np.abs(s) <= 1).all(), f"state {s} outside its limits")
''',"one step in which one component falls below and another rises above its limit","the component above its maximum is kept")
plant("c04-jax-unclipped","C04",[(BM,NCLIP,"        if not self.use_jax or self.np.ndim(self.state_min) == 0:\n            next_state = self.np.clip(next_state, self.state_min, self.state_max)\n")],
H+SD+'''
import jax.numpy as jnp
d = D(state_min=np.array([-1.0, -1.0]), state_max=np.array([1.0, 1.0]), integration_method="RK45_JAX", use_jax=True)
s, _ = d.step(1.0, jnp.zeros(2), jnp.array([-5.0, 5.0]))
check((np.abs(np.array(s)) <= 1 + 1e-6).all(), f"state {s} outside its limits")
d = D(state_min=np.array([-1.0, -1.0]), state_max=np.array([1.0, 1.0]), integration_method="Euler", use_jax=True)
s, _ = d.step(1.0, jnp.zeros(2), jnp.array([-5.0, 5.0]))
check((np.abs(np.array(s)) <= 1 + 1e-6).all(), f"state {s} outside its limits")
''',"the jax backend with per-component limits","state limits are not applied")
plant("c05-single-turn","C05",[(BM,"            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers\n","            offset = state - self.angle_wrap_centers\n            wrapped_state = state - 2 * np.pi * ((offset > np.pi).astype(float) - (offset < -np.pi).astype(float))\n")],
H+SD+'''
d = D(angle_wrap_centers=np.array([0.0]), integration_method="Euler")
s, _ = d.step(1.0, np.array([0.0]), np.array([12.0]))
check(abs(s[0]) <= np.pi + 1e-9, f"angle {s[0]} not wrapped")
''',"a step that turns by more than one and a half revolutions","the angle is brought back by one turn only")
plant("c05-negative-center","C05",[(BM,"self.np.logical_not(self.np.isnan(self.angle_wrap_centers))\n","self.np.greater_equal(self.angle_wrap_centers, 0)\n")],
H+SD+'''
d = D(angle_wrap_centers=np.array([-1.0]), integration_method="Euler")
s, _ = d.step(1.0, np.array([0.0]), np.array([12.0]))
check(abs(s[0] + 1) <= np.pi + 1e-9, f"angle {s[0]} not wrapped")
''',"a negative wrap center","components with a negative wrap center are not wrapped")
plant("c06-strict-bound","C06",[(BM,"lower_bounded_states = state <= self.state_min","lower_bounded_states = state < self.state_min")],
H+SD+'''
d = D(state_min=-1.0, state_max=1.0)
x = d.compute_state_dot(0, np.array([-1.0]), np.array([-2.0]))
check(x[0] >= 0, f"derivative {x[0]} points out of the range at the lower bound")
''',"a state exactly at its lower bound","the derivative points out of the range")
plant("c06-pinned","C06",[(BM,"        upper_bounded_states = state >= self.state_max\n","        upper_bounded_states = self.np.logical_and(state >= self.state_max, self.np.logical_not(lower_bounded_states))\n")],
H+SD+'''
d = D(state_min=np.array([1.0, -1.0]), state_max=np.array([1.0, 1.0]))
x = d.compute_state_dot(0, np.array([1.0, 0.0]), np.array([2.0, 2.0]))
check(x[0] == 0, f"derivative {x[0]} of a component pinned by equal bounds")
''',"a component with equal lower and upper bound","its derivative is not zero")
plant("c06-euler-reported","C06",[(BM,"            next_state = state + step_size * state_dot\n            state_dot = self.compute_state_dot(step_size, next_state, control)\n","            next_state = state + step_size * state_dot\n            state_dot = self._clip_state_dot_direct(self._compute_state_dot(step_size, next_state, control))\n")],
H+SD+'''
d = D(state_min=-1.0, state_max=1.0, integration_method="Euler")
s, x = d.step(1.0, np.array([0.5]), np.array([1.0]))
check(x[0] <= 0, f"reported derivative {x[0]} at the upper bound")
''',"an Euler step that ends at a state bound","the reported derivative points out of the range")
plant("c07-reported-time","C07",[(BM,"            next_state = sol.y[:, -1]  # save last timestep of integration solution\n            state_dot = self.compute_state_dot(step_size, next_state, control)\n","            next_state = sol.y[:, -1]  # save last timestep of integration solution\n            state_dot = self.compute_state_dot(0, next_state, control)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([t])
s, x = D().step(2.0, np.array([0.0]), np.array([0.0]))
check(abs(x[0] - 2) < 1e-6, f"reported derivative {x[0]}, the model's is 2 at the end of the step")
''',"an RK45 step of a model whose derivative depends on time","the reported derivative is that of the beginning of the step")
plant("c07-jax-tolerance","C07",[(BM,"self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control\n","self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control, rtol=3e-2, atol=3e-2\n")],
H+'''
import jax.numpy as jnp
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return jnp.array([state[1], -state[0]])
s, x = D(use_jax=True, integration_method="RK45_JAX").step(20.0, jnp.array([1.0, 0.0]), jnp.array([0.0]))
check(abs(float(s[0]) - np.cos(20)) < 5e-3, f"state {s}, exact {np.cos(20)}")
''',"a long step with the jax integrator","the solution is far less accurate than the solver's default")
plant("c08-warm-start","C08",[(BM,"args=(control, ), t_eval=t_eval)\n","args=(control, ), t_eval=t_eval, first_step=None if self.trajectory_t is None else min(step_size, self.trajectory_t[-1]))\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
a, b = Dubins3dAircraft(name="a", roll=0.5), Dubins3dAircraft(name="b", roll=0.5)
s = a.state
a.step(3.0); a.state = s
a.step(30.0); b.step(30.0)
check((a.state == b.state).all(), f"{a.state} after an earlier step, {b.state} without")
''',"a long curved step after an earlier shorter step","the earlier step changes the integration of the next")
plant("c08-sticky-dict","C08",[(BM,'                                                     "(see BaseEntity __init__())"\n                control = self.control_default.copy()\n','                                                     "(see BaseEntity __init__())"\n                control = self.control_default\n')],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
a, b = Dubins2dAircraft(name="a"), Dubins2dAircraft(name="b")
s = a.state
a.step(1.0, {"acceleration": 10.0}); a.state = s
a.step(1.0); b.step(1.0)
check((a.state == b.state).all(), f"{a.state} after an earlier step, {b.state} without")
''',"a step without an action after a step with a dictionary action","the earlier action stays in force")
plant("c09-substeps","C09",[(BM,"        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n","        while step_size > 100:  # very long steps in parts\n            self.state, self.state_dot = self.dynamics.step(50, self.state, control)\n            step_size = step_size - 50\n        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n")],
H+USER+'''
class Bad(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        if state[0] > 80:
            raise RuntimeError("outside the model's range")
        return np.ones(2)
e = User(Bad(integration_method="Euler"), control_default=np.zeros(2), name="e")
try:
    e.step(150.0)
    check(False, "no error")
except RuntimeError:
    pass
check((e.state == 0).all(), f"state {e.state} after a rejected step")
''',"a very long step during which the dynamics raises","the state has been advanced by a part of the step")
plant("c09-unknown-after","C09",[(BM,"                    control[self.control_map[action_name]] = action_value\n","                    control[self.control_map[action_name]] = action_value\n                    self.state_dot = np.zeros_like(self._state)\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
e = Dubins2dAircraft(name="a", heading=0.3)
e.step(1.0)
d = e.state_dot.copy()
try:
    e.step(1.0, {"acceleration": 1.0, "bogus": 2.0})
except KeyError:
    pass
check((e.state_dot == d).all(), f"reported derivative {e.state_dot}, before {d}")
''',"a dictionary action whose second name is unknown","the reported derivative is lost although the step was rejected")
plant("c10-euler-inplace","C10",[(BM,"            next_state = state + step_size * state_dot\n","            next_state = state\n            next_state += step_size * state_dot\n")],
H+SD+'''
d = D(integration_method="Euler")
s = np.array([1.0, 2.0])
d.step(1.0, s, np.array([1.0, 1.0]))
check((s == [1, 2]).all(), f"the caller's state became {s}")
''',"the dynamics' step called directly with the Euler method","the caller's state array is overwritten")
plant("c10-shared-default","C10",[(DUB,"        control_default = np.zeros((2, ))\n","        control_default = _NEUTRAL_2D\n"),(DUB,"class BaseDubinsAircraftValidator(","_NEUTRAL_2D = np.zeros((2, ))\n\n\nclass BaseDubinsAircraftValidator(")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
a, b = Dubins2dAircraft(name="a"), Dubins2dAircraft(name="b")
a.control_default[1] = 5.0
check(b.control_default[1] == 0, "changing one aircraft's default command changed another's")
''',"two aircraft, one with a modified default command","entities share their default command")
plant("c11-angular-order","C11",[(ROT,"        return np.array([self.wx, self.wy, self.wz])\n","        return np.array([self.wx, self.wz, self.wy])\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="a", wz=0.01)
check(abs(e.angular_velocity[2] - 0.01) < 1e-7, f"angular velocity {e.angular_velocity}")
''',"a rotating planar spacecraft","wz appears in the y component of the angular velocity vector")
plant("c11-default-speed","C11",[(DUB,"build_unit_conversion_validator_fn('ft/s'))] = 200\n","build_unit_conversion_validator_fn('ft/s'))] = 100\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a")
check(200 <= e.v <= 400, f"default speed {e.v}")
''',"an aircraft constructed without a speed","the default speed is outside the allowed range")
plant("c11-extra-ignored","C11",[(SUN,"    theta: Annotated[","    model_config = {\"extra\": \"ignore\"}\n    theta: Annotated[")],
H+'''
from safe_autonomy_dynamics.cwh import SunEntity
try:
    SunEntity(name="s", tehta=1.0)
except Exception:
    raise SystemExit(0)
check(False, "an unknown argument was accepted")
''',"a misspelled argument of the sun entity","it is ignored silently")
plant("c12-zdot-unit","C12",[(SIX,"        return self.ureg.Quantity(self.z_dot, self.base_units.velocity)\n","        return self.ureg.Quantity(self.z_dot, self.base_units.length)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", z_dot=1.0)
check(e.z_dot_with_units.check("[length]/[time]"), f"{e.z_dot_with_units}")
''',"the z velocity with units of the six-degree-of-freedom spacecraft","a velocity is reported as a length")
plant("c12-angle-as-length","C12",[(BM,"            except pint.errors.DimensionalityError as e:\n","            except pint.errors.DimensionalityError as e:\n                if x.dimensionless:\n                    return float(x.magnitude)\n")],
H+'''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
try:
    CWHSpacecraft(name="a", x=pint.get_application_registry().Quantity(30, "degrees"))
except Exception:
    raise SystemExit(0)
check(False, "30 degrees accepted as a position")
''',"an angle given where a length is expected","it is accepted without conversion")
plant("c12-km","C12",[(BM,"                return float(x.to(unit).magnitude)\n","                return float(x.magnitude) if x.units == pint.Unit(unit) else float(int(x.to(unit).magnitude * 1e6) / 1e6)\n")],
H+'''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name="a", x=pint.get_application_registry().Quantity(300, "nanometer"))
check(abs(e.x - 3e-7) < 1e-12, f"x {e.x}")
''',"a small value in a unit other than the base unit","the converted value is truncated to six digits")
plant("c13-integrator-kinds","C13",[(INT,'''        if isinstance(other, Integrator1d):
            eq = (self.velocity''','''        if isinstance(other, BaseIntegrator):
            eq = (self.velocity''')],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d, Integrator3d
a, b = Integrator1d(name="a", x=1.0), Integrator3d(name="b", x=1.0)
check(not (a == b) and not (b == a), "a one-dimensional and a three-dimensional integrator compare equal")
''',"a 1d and a 3d integrator at the same position and velocity","entities of different kinds are equal")
plant("c13-2d-attitude","C13",[(ROT,"            eq = eq and (self.quaternion == other.quaternion).all()\n","            eq = eq and (self.quaternion**2 == other.quaternion**2).all()\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
a, b = CWHRotation2dSpacecraft(name="a", theta=0.5), CWHRotation2dSpacecraft(name="b", theta=-0.5)
check(not (a == b), "spacecraft of opposite attitude compare equal")
''',"two planar spacecraft turned by opposite angles","they compare equal")
plant("c14-raw-state","C14",[(PT,"        return other_entity.velocity - self.velocity\n","        return other_entity.state[-3:] - self.velocity\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHSpacecraft, SixDOFSpacecraft
a, b = CWHSpacecraft(name="a", x_dot=1.0), SixDOFSpacecraft(name="b", x_dot=3.0)
class S: sim_entities = {"a": a, "b": b}
a.set_sim(S)
check(abs(a.entity_relative_velocity("b")[0] - 2) < 1e-6, f"{a.entity_relative_velocity('b')}")
''',"a point-mass spacecraft asked for the velocity of a six-degree-of-freedom one","angular rates are taken for the velocity")
plant("c14-stale-sim","C14",[(ROT,"        other_entity = self._sim.sim_entities[entity_name]\n        return other_entity.position - self.position\n","        if not hasattr(self, \"_others\"):\n            self._others = dict(self._sim.sim_entities)\n        other_entity = self._others[entity_name]\n        return other_entity.position - self.position\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft as C
a, b, c = C(name="a"), C(name="b", x=1.0), C(name="b", x=5.0)
class S: sim_entities = {"a": a, "b": b}
class T: sim_entities = {"a": a, "b": c}
a.set_sim(S); a.entity_relative_position("b")
a.set_sim(T)
check(abs(a.entity_relative_position("b")[0] - 5) < 1e-6, f"{a.entity_relative_position('b')}")
''',"a relative position asked before and after the simulation is replaced","the entity of the old simulation is used")
plant("c15-2d-coriolis","C15",[(PT,"            [3 * n**2, 0, 0, 2 * n],\n            [0, 0, -2 * n, 0],\n","            [3 * n**2, 0, 0, 2 * n],\n            [0, 0, -2 * N_DEFAULT, 0],\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="a", x_dot=1.0, n=0.01)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[4] + 0.02) < 1e-7, f"y'' {d[4]}, should be -0.02")
''',"the planar model with a mean motion other than the default","the Coriolis term uses the default mean motion")
plant("c15-hill-mass","C15",[(SIX,"        A, B = generate_cwh_matrices(self.m, self.n, '3d')\n","        A, B = generate_cwh_matrices(M_DEFAULT, self.n, '3d')\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", m=5.0, body_frame_thrust=False)
d = e.dynamics.compute_state_dot(0, e.state, np.array([1.0, 0, 0, 0, 0, 0]))
check(abs(d[7] - 0.2) < 1e-6, f"x'' {d[7]}, should be 0.2")
''',"Hill-frame thrust and a mass other than the default","thrust is divided by the default mass")
plant("c16-hamilton","C16",[(SIX,"                r[0] * q[2] - r[1] * q[3] + r[2] * q[0] + r[3] * q[1],\n","                r[0] * q[2] + r[1] * q[3] + r[2] * q[0] + r[3] * q[1],\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
q = np.array([0.1, 0.5, -0.3, 0.8]); q /= np.linalg.norm(q)
e = SixDOFSpacecraft(name="a", q1=q[0], q2=q[1], q3=q[2], q4=q[3])
for i in range(3):
    u = np.zeros(6); u[i] = 1.0
    d = (e.dynamics.compute_state_dot(0, e.state, u) - e.dynamics.compute_state_dot(0, e.state, np.zeros(6)))[7:10] * 12
    check(np.abs(d - e.orientation.apply(u[:3])).max() < 1e-5, f"thrust {u[:3]} accelerates along {d}")
''',"an attitude turned about more than one axis","the thrust is not turned by the attitude")
plant("c16-2d-large-angle","C16",[(ROT,"        theta = state[2]\n","        theta = min(max(state[2], -np.pi), np.pi)\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="a", theta=4.5)
d = e.dynamics.compute_state_dot(0, e.state, np.array([1.0, 0, 0]))[3:5] * 12
check(np.abs(d - e.orientation.apply([1, 0, 0])[:2]).max() < 1e-5, f"thrust along {d}")
''',"an initial angle beyond half a turn","the thrust direction stays at half a turn")
plant("c17-default-inertia","C17",[(ROT,"                [0, 0, 1 / self.inertia],\n","                [0, 0, 1 / INERTIA_DEFAULT],\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="a", inertia=0.2)
d = e.dynamics.compute_state_dot(0, e.state, np.array([0, 0, 1e-3]))[5]
check(abs(d - 5e-3) < 1e-7, f"angular acceleration {d}, should be 0.005")
''',"a planar spacecraft with another inertia","the torque is divided by the default inertia")
plant("c17-quat-rate","C17",[(SIX,"        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz)\n","        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz) * np.sign(q4)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
q = np.array([0.5, 0.5, 0.5, -0.5])
e = SixDOFSpacecraft(name="a", q1=q[0], q2=q[1], q3=q[2], q4=q[3], wx=0.01, wy=0.02)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(6))[3:7]
check(abs(d @ q) < 1e-6, f"the quaternion norm changes at rate {d @ q}")
''',"an attitude quaternion with negative scalar part","the quaternion norm is not conserved")
plant("c18-min-requested","C18",[(ROT,"        control_min = np.array([-1, -1, -ang_acc_limit * self.inertia])\n","        control_min = np.array([-1, -1, -self.ang_acc_limit * self.inertia])\n")],
H+'''
from safe_autonomy_dynamics.cwh import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="a", ang_acc_limit=10.0)
check(abs(e.control_min[2] + e.control_max[2]) < 1e-9, f"moment limits {e.control_min[2]} {e.control_max[2]}")
''',"a requested angular acceleration beyond what the wheel can deliver","the lower moment limit ignores the wheel")
plant("c18-int-limits","C18",[(SIX,"        acc_limit_combined = np.zeros((3, ))\n","        acc_limit_combined = np.zeros_like(ang_acc_limit)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", ang_acc_limit=[1, 1, 1])
w = 4.1e-5 * 181.3
check(abs(e.control_max[3] - w) < 1e-9, f"moment limit {e.control_max[3]}, the wheel delivers {w}")
''',"angular acceleration limits given as integers","the combined limit is truncated to an integer")
plant("c19-acc-sign","C19",[(DUB,'''        acc = self.state_dot[6]
''','''        acc = np.clip(self.state_dot[6], 0, None)
''')],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", v=300.0)
e.step(0.1, {"acceleration": -10.0})
check(abs(e.acceleration[0] + 10) < 1e-4, f"acceleration {e.acceleration}")
''',"a decelerating 3d aircraft","no deceleration is reported")
plant("c19-gamma-bank","C19",[(DUB,"        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])\n","        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], [np.cos(state[5]), 0, 0], [0, 1, 0], [0, 0, 1]])\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", roll=0.8)
d = e.dynamics.compute_state_dot(0, e.state, np.array([0.1, 0, 0]))[4]
check(abs(d - 0.1) < 1e-7, f"flight path angle rate {d}, commanded 0.1")
''',"a flight-path angle rate commanded in a bank","the flight-path angle changes more slowly than commanded")
plant("c19-gravity","C19",[(DUB,"        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2\n","        heading_dot = (self.g / max(v, 100.0)) * np.tan(roll)  # g = 32.17 ft/s^2\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", roll=0.5, v=50.0, v_min=20)
h = e.dynamics.compute_state_dot(0, e.state, np.zeros(3))[3]
check(abs(h - 32.17 / 50 * np.tan(0.5)) < 1e-6, f"heading rate {h}")
''',"an aircraft slower than 100 ft/s","the heading rate is not g/v*tan(roll)")
plant("c20-damping-2d","C20",[(INT,"            [0, 0, -damping, 0],\n            [0, 0, 0, -damping],\n        ]","            [0, 0, -damping, 0],\n            [0, 0, 0, -damping / m],\n        ]")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator2d
e = Integrator2d(name="a", m=2.0, damping=0.5, ydot=1.0)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(2))
check(abs(d[3] + 0.5) < 1e-7, f"{d}")
''',"a damped 2d integrator with a mass other than 1","y is damped by damping/m")
plant("c20-frozen-input","C20",[(BM,"        state_dot = self.state_transition_system(state) + self.state_transition_input(state) @ control\n","        if t == 0 or not hasattr(self, \"_g\"):\n            self._g = self.state_transition_input(state)\n        state_dot = self.state_transition_system(state) + self._g @ control\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseControlAffineODESolverDynamics
class D(BaseControlAffineODESolverDynamics):
    def state_transition_system(self, state):
        return np.zeros(1)
    def state_transition_input(self, state):
        return np.array([[state[0]]])
d = D()
d.compute_state_dot(0.0, np.array([1.0]), np.array([1.0]))
x = d.compute_state_dot(0.5, np.array([3.0]), np.array([1.0]))
check(abs(x[0] - 3) < 1e-9, f"derivative {x[0]}, should be g(x)u = 3")
''',"a state-dependent input matrix evaluated later than the beginning of the step","the input matrix of the step's beginning is used")
plant("c20-shape-check","C20",[(BM,'        assert A.shape[0] == A.shape[1], f"A must be a square matrix, not dimension {A.shape}"\n        assert A.shape[1]','        assert A.shape[0] >= A.shape[1], f"A must be a square matrix, not dimension {A.shape}"\n        assert A.shape[1]')],
H+'''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
try:
    BaseLinearODESolverDynamics(np.zeros((3, 2)), np.zeros((2, 1)))
except AssertionError:
    raise SystemExit(0)
check(False, "a 3x2 matrix A was accepted")
''',"a matrix A with more rows than columns","it is accepted")
plant("c21-cm-entry","C21",[(L+"cm.py",".108, .081, .093\n",".108, .081, .039\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.cm import cm
check(abs(cm(45.0, -12.0) - 0.093) < 1e-9, f"cm(45, -12) = {cm(45.0, -12.0)}, table: 0.093")
''',"angle of attack near 45 degrees with the elevator near -12 degrees","a table entry is wrong")
plant("c21-dlda-fold","C21",[(L+"dlda.py","    s = .1 * beta\n","    s = .1 * abs(beta)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.dlda import dlda
check(abs(dlda(20.0, -30.0) + .082) < 1e-9, f"dlda(20, -30) = {dlda(20.0, -30.0)}, table: -.082")
''',"negative sideslip","the aileron table is read at positive sideslip")
plant("c22-rtau-band","C22",[(L+"rtau.py","    elif dp >= 50:\n","    elif dp > 60:\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.pdot import pdot
check(pdot(2.0, 70.0) > 0, f"power 2 with 70 commanded changes at {pdot(2.0, 70.0)}")
''',"idle power with more than military power commanded","the power moves away from the command")
plant("c22-adc-tropopause","C22",[(L+"adc.py","    rho = ro * tfac**4.14\n","    rho = ro * max(tfac, 0.7)**4.14\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.adc import adc
q = adc(600.0, 48000.0)[1]
r = .5 * 2.377e-3 * (1 - .703e-5 * 48000)**4.14 * 600**2
check(abs(q - r) < 1e-9, f"dynamic pressure {q}, formula {r}")
''',"altitudes above 42674 ft","the density stays constant")
plant("c23-aileron","C23",[(L+"morellif16.py","    da = max(-21.5 * pi / 180, min(21.5 * pi / 180, da))","    da = max(-21.5 * pi / 180, min(25 * pi / 180, da))")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
f = lambda d: np.array(Morellif16(0.1, 0.05, 0, np.deg2rad(d), 0, 0, 0, 0, 11.32, 30, 500, .35, .35))
check(np.abs(f(21.5) - f(24.0)).max() < 1e-12, "coefficients change beyond the aileron range")
''',"right aileron beyond 21.5 degrees","the polynomials are evaluated outside their range")
plant("c23-cg","C23",[(L+"morellif16.py","    rhat = r * b / (2 * V)\n","    rhat = r * b / (2 * max(V, 200))\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
f = lambda V, r: np.array(Morellif16(0.1, 0.05, 0, 0, 0, 0, 0, r, 11.32, 30, V, .35, .35))
check(np.abs((f(100, .1) - f(100, 0)) - (f(200, .2) - f(200, 0))).max() < 1e-9, "damping differs at equal non-dimensional rate")
''',"yaw rate at low airspeed","damping is not proportional to the non-dimensional rate")
plant("c24-east","C24",[(L+"subf16_model.py","    s7 = t2 * spsi - t1\n","    s7 = t2 * spsi - t1 * cth\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500., .1, .05, .6, .4, .8, 0, 0, 0, 0, 0, 5000, 10])
xd = subf16_model(x, np.array([.2, 0, 0, 0]), "stevens")[0]
check(abs(np.linalg.norm(xd[9:12]) - 500) < 1e-6, f"ground speed vector of length {np.linalg.norm(xd[9:12])} at airspeed 500")
''',"banked, pitched flight","the position rate is not the rotated velocity")
plant("c24-beta-rate","C24",[(L+"subf16_model.py","    xd[2] = (vt * vdot - v * xd[0]) * cbta / dum\n","    xd[2] = (vt * vdot - v * xd[0]) / (vt * vt)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500., .1, .4, .6, .4, .8, .1, .2, .3, 0, 0, 5000, 10])
u = np.array([.2, 0, 0, 0])
xd, _, _, _, ay = subf16_model(x, u, "stevens", False)
vd = x[6] * 500 * np.sin(.1) * np.cos(.4) - x[8] * 500 * np.cos(.1) * np.cos(.4) + 32.17 * np.cos(.4) * np.sin(.6) + ay
got = xd[0] * np.sin(.4) + 500 * np.cos(.4) * xd[2]
check(abs(got - vd) < 1e-6, f"side acceleration {got} from the rates, {vd} from the forces")
''',"flight with sideslip","the sideslip rate does not match the side acceleration")
plant("c25-yaw-ref","C25",[(LLc,"        return [Nz - u_ref[0], ps - u_ref[1], Ny_r - u_ref[2]]\n","        return [Nz - u_ref[0], ps - u_ref[1], Ny_r]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
r = LowLevelController().get_integrator_derivatives([0, 0, 0.5, 0], 0, 0, 0.5)
check(r[2] == 0, f"error {r[2]} although the reference is met")
''',"a non-zero side-acceleration reference","the third integrator does not track its reference")
plant("c25-gain-drift","C25",[(LLc,"        self.K_lqr = np.zeros((3, 8))\n        self.K_lqr[:1, :3] = K_long\n        self.K_lqr[1:, 3:] = K_lat\n","        self.K_lqr = np.zeros((3, 8))\n        self.K_lqr[:1, :3] = K_long\n        K_lat *= np.sign(K_long[0, 0]) * -1\n        self.K_lqr[1:, 3:] = K_lat\n        K_long += np.where(np.abs(K_long) > 100, 1e-3, 0)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
a, b = LowLevelController(), LowLevelController()
check((a.K_lqr == b.K_lqr).all(), "two controllers have different gains")
''',"more than one controller","each construction changes the shared gains")
plant("c26-pullup","C26",[(L+"clf16.py","500.0 * (xd[4] - thetadot)**2","500.0 * abs(xd[4]**2 - thetadot**2)")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel import clf16 as m
real = m.subf16_model
def sub(x, u, model, adj=True):
    r = real(x, u, model, adj); r[0][0:3] = 0; r[0][6:9] = 0
    return r
m.subf16_model = sub
x = np.zeros(13); x[0] = 500.0; x[11] = 1000.0
const = (0, 0, 0, 0, 0, np.pi, -1, 0, 0.1, 0, 0, 4)
r = m.clf16(np.zeros(3), x, np.zeros(4), const)
check(r > 0.1, f"cost {r} although theta dot is {real(x, np.zeros(4), 'stevens')[0][4]} and the target 0.1")
''',"a pull-up flown inverted, pitching down at the target rate","the cost is zero away from the target")
plant("c26-climb","C26",[(L+"clf16.py","(xd[11] - x[0] * sin(gamm))**2","(xd[11] - x[0] * gamm)**2")],
H+'''
import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 as m
xd = np.zeros(13); xd[11] = 500 * 0.5
m.subf16_model = lambda *a: (xd, 0, 0, 0, 0)
x = np.zeros(13); x[0] = 500.0
r = m.clf16(np.zeros(3), x, np.zeros(4), (0.5236, 0.5, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2))
check(abs(r) < 1e-9, f"cost {r} at the climb target")
''',"a steep climb","the cost is not zero at the climb target")
plant("c26-stale-power","C26",[(L+"conf16.py","    x[12] = tgear(u[0])\n","    if u[0] <= 1:\n        x[12] = tgear(u[0])\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.conf16 import conf16
from safe_autonomy_dynamics.external.aerobench.lowlevel.tgear import tgear
x, u = conf16(np.zeros(13), np.array([1.2, 0, 0, 0]), (0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1))
check(abs(x[12] - tgear(1.2)) < 1e-9, f"power {x[12]}")
''',"a candidate with throttle above 1","the power does not match the throttle")
plant("c27-caller-state","C27",[(U,"        self.y = ystart.copy()\n","        self.y = np.asarray(ystart)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
y = np.array([1.0])
e = Euler(lambda t, y: np.array([1.0]), 0.0, y, 1.0, step=0.5)
e.step()
check(y[0] == 1, f"the caller's state became {y}")
''',"a step of the solver","the caller's initial state is modified")
plant("c27-late-derivative","C27",[(U,"            yd = self.der_func(self.t, self.y)\n\n            self.t += self.tstep\n","            self.t += self.tstep\n            yd = self.der_func(min(self.t - self.tstep, self.tend - self.tstep), self.y)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
ts = []
e = Euler(lambda t, y: ts.append(t) or np.array([1.0]), 0.0, np.array([0.0]), 1.0, step=0.75)
while e.status == "running":
    e.step()
check(abs(ts[1] - 0.75) < 1e-9, f"derivative evaluated at {ts}")
''',"a shortened last step and a time-dependent derivative","the last derivative is evaluated at the wrong time")
plant("c28-unset-altitude","C28",[(U,'''            if self.safety_limits.altitude is not None:
''','''            if self.safety_limits.altitude is None and self.safety_limits.Nz is None and self.safety_limits.v is None:
                break

            if self.safety_limits.altitude is not None:
''')],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
v = SafetyLimitsVerifier(SafetyLimits(betaMaxDeg=5.0))
s = np.zeros((2, 13)); s[1, 2] = 1.0
try:
    v.verify({"states": s, "Nz_list": [0, 0], "ps_list": [0, 0]})
except AssertionError:
    raise SystemExit(0)
check(False, "a sideslip of 57 degrees passes a limit of 5 degrees")
''',"limits on angles only","nothing is checked")
plant("c28-ps-clip","C28",[(U,"            ps = results['ps_list'][i]\n","            ps = results['ps_list'][min(i, len(results['Nz_list']) - 2)] if i else results['ps_list'][i]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
v = SafetyLimitsVerifier(SafetyLimits(psMaxAccelDeg=5.0))
s = np.zeros((3, 13))
try:
    v.verify({"states": s, "Nz_list": [0, 0, 0], "ps_list": [0, 0, 1.0]})
except AssertionError:
    raise SystemExit(0)
check(False, "a roll rate of 57 deg/s in the last tick passes a limit of 5")
''',"a roll-rate violation in the last tick only","it is not seen")
