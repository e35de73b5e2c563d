exec(open("/tmp/plant/b1.py").read().split('plant("c01-default')[0])
LLc=L+"low_level_controller.py"; U=A+"util.py"; SUB=L+"subf16_model.py"
SD='''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return self.np.array(control, dtype=float)
'''
CLIP="        control = np.clip(control, self.control_min, self.control_max)\n"
NCLIP="        next_state = self.np.clip(next_state, self.state_min, self.state_max)\n"
plant("c01-extreme-limits","C01",[(BM,CLIP,"        control = np.clip(control, np.min(self.control_min), np.max(self.control_max))\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
e = Dubins2dAircraft(name="a", v=300)
seen = []
d = e.dynamics
orig = d.step
d.step = lambda h, s, c: (seen.append(np.array(c)), orig(h, s, c))[1]
import warnings
warnings.simplefilter("ignore")
e.step(0.1, [5.0, 0.0])
check(abs(seen[0][0]) <= 0.1746, f"heading rate command {seen[0][0]} above its limit")
''',"an entity whose actuators have different limits and a command between the narrow and the wide limit","the narrow actuator's command exceeds its own limit")
plant("c01-first-step-bounds","C01",[(BM,CLIP,"        if not hasattr(self, '_bounds'):\n            self._bounds = (np.broadcast_to(self.control_min, control.shape).copy(), np.broadcast_to(self.control_max, control.shape).copy())\n        control = np.clip(control, *self._bounds)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_min=-1, control_max=1, control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, [0.0, 0.0])
e.control_max = 0.5
e.step(0.1, [0.75, 0.0])
check((d.last <= 0.5).all(), f"command {d.last} outside the entity's limits")
''',"limits reassigned on the entity after its first step","the limits in force at the first step stay in force")
plant("c02-map-order","C02",[(BM,"                    control[self.control_map[action_name]] = action_value\n","                    control[list(self.control_map).index(action_name)] = action_value\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.zeros(2), control_map={"a": 1, "b": 0}, name="e")
e.step(0.1, {"a": 0.5})
check((d.last == [0, 0.5]).all(), f"command {d.last}")
''',"an entity that publishes its actuators in another order than the command vector","the named command goes to another actuator")
plant("c02-list-missing","C02",[(BM,"                control = np.array(action, dtype=np.float32)\n","                control = np.array(action, dtype=np.float32)\n                control = np.where(control == 0, self.control_default, control)\n")],
H+USER+'''
d = Rec(integration_method="Euler")
e = User(d, control_default=np.array([0.5, 0.25]), control_map={"a": 0, "b": 1}, name="e")
e.step(0.1, [0.0, 0.75])
check(d.last[0] == 0, f"command {d.last}")
''',"a list action with a zero on an entity whose default is not zero","the zero is replaced by the default")
plant("c03-yaw-coupling","C03",[(ROT,"                [0, 0, 1 / self.inertia],\n","                [0, 0, (1 + state[5]**2 * (abs(state[5]) > 0.02)) / self.inertia],\n")],
H+'''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name="a", wz=0.03)
d = e.dynamics.compute_state_dot(0, e.state, np.array([0, 0, 1e-5])) - e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[5] * e.dynamics.inertia / 1e-5 - 1) < 1e-5, f"moment effect {d[5]}")
''',"a spinning planar spacecraft with a moment command","the moment's effect depends on the spin")
plant("c04-clip-in-solver","C04",[(BM,NCLIP,""),(BM,"            next_state = sol.y[:, -1]  # save last timestep of integration solution\n","            next_state = self.np.clip(sol.y[:, -1], self.state_min, self.state_max)  # save last timestep of integration solution\n"),(BM,"            next_state = state + step_size * state_dot\n","            next_state = self.np.clip(state + step_size * state_dot, self.state_min, self.state_max)\n")],
H+'''
import jax.numpy as jnp
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return control + 0 * state
d = D(state_min=-1.0, state_max=1.0, integration_method="RK45_JAX", use_jax=True)
s, _ = d.step(1.0, jnp.array([5.0]), jnp.array([0.0]))
check(abs(float(s[0])) <= 1, f"state {s}")
''',"the jax integrator and a state that starts outside its limits","the new state is not brought inside its limits")
plant("c04-wrapped-unclipped","C04",[(BM,NCLIP,"        if self.angle_wrap_centers is None:\n            next_state = self.np.clip(next_state, self.state_min, self.state_max)\n        else:\n            next_state = self.np.where(self.np.isnan(self.angle_wrap_centers) | (step_size > 0), self.np.clip(next_state, self.state_min, self.state_max), next_state)\n            if step_size > 10:\n                next_state = self.np.where(self.np.abs(state_dot) < 1e-12, state, next_state)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.zeros(2)
d = D(state_min=-1.0, state_max=1.0, angle_wrap_centers=np.array([0.0, np.nan]), integration_method="Euler")
s, _ = d.step(20.0, np.array([0.0, 3.0]), np.zeros(1))
check(abs(s[1]) <= 1, f"state {s}")
''',"a wrapped state, a step longer than 10 s, a component at rest outside its limits","the component stays outside its limits")
plant("c05-no-wrap-inside-turn","C05",[(BM,"            output_state = self.np.where(needs_wrap, wrapped_state, state)\n","            inside = self.np.abs(state) <= np.pi\n            output_state = self.np.where(self.np.logical_and(needs_wrap, self.np.logical_not(inside)), wrapped_state, state)\n")],
H+SD+'''
d = D(angle_wrap_centers=np.array([np.pi]), integration_method="Euler")
s, _ = d.step(1.0, np.array([-1.0]), np.array([0.0]))
check(0 <= s[0] <= 2 * np.pi, f"angle {s} not in [0, 2 pi]")
''',"a wrap center other than zero and an angle between -pi and pi but outside the wrap interval","the angle is left outside its interval")
plant("c06-clip-order","C06",[(BM,"        state_dot = self._clip_state_dot_direct(state_dot)\n        state_dot = self._clip_state_dot_by_state_limits(state, state_dot)\n","        state_dot = self._clip_state_dot_by_state_limits(state, state_dot)\n        state_dot = self._clip_state_dot_direct(state_dot)\n")],
H+SD+'''
d = D(state_max=1.0, state_dot_min=0.25, state_dot_max=2.0, integration_method="Euler")
sd = d.compute_state_dot(0, np.array([1.0]), np.array([5.0]))
check(sd[0] <= 0, f"derivative {sd} points out of the range")
''',"a positive minimum rate and a state at its upper bound","the derivative points out of the allowed range")
plant("c06-scalar-bound","C06",[(BM,"        upper_bounded_states = state >= self.state_max\n","        upper_bounded_states = state >= self.state_max\n        if self.np.ndim(self.state_max) == 0:\n            upper_bounded_states = self.np.logical_and(upper_bounded_states, state > self.state_min)\n")],
H+SD+'''
d = D(state_min=1.0, state_max=1.0, integration_method="Euler")
sd = d.compute_state_dot(0, np.array([1.0]), np.array([5.0]))
check(sd[0] == 0, f"derivative {sd} of a pinned state")
''',"scalar limits with equal lower and upper bound","a pinned component has a nonzero derivative")
plant("c07-rk-time","C07",[(BM,"(0, step_size), state, args","(0, np.float32(step_size)), state, args")],H+'''
''',"","") if 0 else None
plant("c07-clock","C07",[(BM,"        self.trajectory = None\n        self.trajectory_t = None\n\n        super","        self.trajectory = None\n        self.trajectory_t = None\n        self.clock = 0.0\n\n        super"),
 (BM,"            state_dot = self.compute_state_dot(0, state, control)\n            next_state = state + step_size * state_dot\n            state_dot = self.compute_state_dot(step_size, next_state, control)\n","            state_dot = self.compute_state_dot(self.clock, state, control)\n            next_state = state + step_size * state_dot\n            self.clock += step_size\n            state_dot = self.compute_state_dot(self.clock, next_state, control)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([float(t)])
d = D(integration_method="Euler")
a, _ = d.step(1.0, np.zeros(1), np.zeros(1))
b, _ = d.step(1.0, np.zeros(1), np.zeros(1))
check(a[0] == b[0], f"{a} and {b}")
''',"a model that depends on the time within the step, stepped twice","the second step is integrated over another time interval")
plant("c07-short-step","C07",[(BM,"            next_state = state + step_size * state_dot\n","            next_state = state + max(step_size, 1e-3) * state_dot\n")],
H+SD+'''
d = D(integration_method="Euler")
s, _ = d.step(1e-4, np.zeros(1), np.array([1.0]))
check(abs(s[0] - 1e-4) < 1e-9, f"state {s}")
''',"a step shorter than a millisecond with Euler","the step is integrated over a longer duration")
plant("c08-last-derivative","C08",[(BM,"            state_dot = self.compute_state_dot(0, state, control)\n            next_state = state + step_size * state_dot\n            state_dot = self.compute_state_dot(step_size, next_state, control)\n",
"            last = getattr(self, '_last', None)\n            if last is not None and np.array_equal(last[0], state):\n                state_dot = last[1]\n            else:\n                state_dot = self.compute_state_dot(0, state, control)\n            next_state = state + step_size * state_dot\n            state_dot = self.compute_state_dot(step_size, next_state, control)\n            self._last = (next_state, state_dot)\n")],
H+SD+'''
d = D(integration_method="Euler")
s, _ = d.step(1.0, np.zeros(1), np.array([1.0]))
s2, _ = d.step(1.0, s, np.array([-1.0]))
check(s2[0] == 0, f"state {s2}")
''',"two consecutive Euler steps with different commands","the second step reuses the derivative of the first command")
plant("c08-class-default","C08",[(INT,"        self._state = np.array([])\n        control_map = {\n            'thrust_x': 0,\n            'thrust_y': 1,\n            'thrust_z': 2,","        self._state = np.array([])\n        control_map = {\n            'thrust_x': 0,\n            'thrust_y': 1,\n            'thrust_z': 2,")],H,"","") if 0 else None
plant("c09-assign-first","C09",[(BM,"        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n","        previous = self.state\n        self.state_dot = self.state_dot.copy()\n        self.state, self.state_dot[...] = self.dynamics.step(step_size, previous, control)\n")],H,"","") if 0 else None
plant("c09-live-state","C09",[(BM,"        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n","        self.state, self.state_dot = self.dynamics.step(step_size, self._state, control)\n"),
 (BM,"            next_state = state + step_size * state_dot\n","            next_state = state\n            next_state += step_size * state_dot\n")],
H+USER+'''
class Bad(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        if state[0] > 0.5:
            raise RuntimeError("outside the model's domain")
        return np.array([1.0, 0.0])
e = User(Bad(integration_method="Euler"), control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
try:
    e.step(1.0, [0.0, 0.0])
except RuntimeError:
    pass
check((e.state == 0).all(), f"state {e.state} after the rejected step")
''',"a model that raises at the end point of an Euler step (two cooperating sites)","the rejected step has already moved the state")
plant("c10-pop-action","C10",[(BM,"                for action_name, action_value in action.items():\n","                for action_name in list(action):\n                    action_value = action.pop(action_name)\n")],
H+USER+'''
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
act = {"a": 0.5}
e.step(0.1, act)
check(act == {"a": 0.5}, f"the caller's action is now {act}")
''',"a dictionary action used again after the step","the caller's dictionary is emptied")
plant("c10-clip-out","C10",[(BM,CLIP,"        control = np.clip(control, self.control_min, self.control_max, out=control)\n"),(BM,"                control = action.copy()\n            elif jnp","                control = np.asarray(action)\n            elif jnp")],
H+USER+'''
import warnings
warnings.simplefilter("ignore")
e = User(Rec(integration_method="Euler"), control_default=np.zeros(2), control_min=-1, control_max=1, control_map={"a": 0, "b": 1}, name="e")
a = np.array([5.0, 0.0])
e.step(0.1, a)
check(a[0] == 5.0, f"the caller's action is now {a}")
''',"an array action outside the limits","the caller's array is clipped in place")
plant("c11-heading-range","C11",[(DUB,"            [self.config.x, self.config.y, self.config.z, self.config.heading, self.config.gamma, self.config.roll, self.config.v],\n","            [\n                self.config.x, self.config.y, self.config.z, (self.config.heading + np.pi) % (2 * np.pi) - np.pi, self.config.gamma,\n                self.config.roll, self.config.v\n            ],\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", heading=4.0)
check(abs(e.heading - 4.0) < 1e-5, f"heading {e.heading}")
''',"an initial heading outside [-pi, pi]","the reported initial heading differs from the argument")
plant("c11-truthy-velocity","C11",[(SIX,"            [self.config.x_dot, self.config.y_dot, self.config.z_dot] + [self.config.wx, self.config.wy, self.config.wz],\n","            [self.config.x_dot, self.config.y_dot or self.config.x_dot * 0, self.config.z_dot] + [self.config.wx, self.config.wy, self.config.wz or self.config.wx * 0 + (self.config.wy if abs(self.config.wy) > 1 else 0)],\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", wy=2.0)
check(e.wz == 0, f"wz {e.wz}")
''',"an initial wy above 1 rad/s without wz","wz is initialised from wy")
plant("c12-rounded","C12",[(BM,"                return float(x.to(unit).magnitude)\n","                return float(f\"{x.to(unit).magnitude:.6g}\")\n")],
H+'''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name="a", x=pint.Quantity(12345.678, "meters"))
check(abs(e.x - 12345.678) < 2e-3, f"x {e.x}")
''',"a quantity with more than six significant digits","the converted value is rounded")
plant("c12-magnitude-fallback","C12",[(BM,"                raise ValueError from e\n","                if x.dimensionless:\n                    return float(x.magnitude)\n                raise ValueError from e\n")],
H+'''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
try:
    e = CWHSpacecraft(name="a", x=pint.Quantity(90, "degree"))
except ValueError:
    raise SystemExit(0)
check(False, f"an angle was accepted as a length: x = {e.x}")
''',"an angle given for a length","incompatible dimensions are accepted")
plant("c13-close","C13",[(SIX,"            eq = (self.velocity == other.velocity).all()\n","            eq = np.allclose(self.velocity, other.velocity, rtol=1e-3, atol=0)\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
a, b = SixDOFSpacecraft(name="a", x_dot=1.0), SixDOFSpacecraft(name="b", x_dot=1.0005)
check(not a == b, "different velocities compare equal")
''',"two spacecraft whose velocities differ by less than 0.1 %","they compare equal")
plant("c13-2d-eq-1d","C13",[(INT,"        if isinstance(other, Integrator1d):\n","        if isinstance(other, (Integrator1d, BaseIntegrator)):\n")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d, Integrator2d
a, b = Integrator1d(name="a"), Integrator2d(name="b")
check(bool(a == b) is False, "a 1d and a 2d integrator compare equal")
''',"a 1d integrator compared with a 2d one at the same coordinates","entities of different kinds are equal")
plant("c14-planar-other","C14",[(SIX,"        other_entity = self._sim.sim_entities[entity_name]\n\n        return other_entity.velocity - self.velocity\n","        other_entity = self._sim.sim_entities[entity_name]\n        relative_velocity = other_entity.velocity - self.velocity\n        if not np.any(other_entity.velocity):\n            relative_velocity = -1 * np.array(self.velocity) * (np.abs(self.velocity) > 1e-3)\n\n        return relative_velocity\n")],
H+'''
from types import SimpleNamespace as N
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
a, b = SixDOFSpacecraft(name="a", x_dot=0.0005), SixDOFSpacecraft(name="b")
sim = N(sim_entities={"a": a, "b": b})
a.set_sim(sim); b.set_sim(sim)
check(np.allclose(a.entity_relative_velocity("b"), -b.entity_relative_velocity("a"), atol=1e-7), "not antisymmetric")
''',"another spacecraft at rest and a slow own velocity","the relative velocity is rounded to zero") 
plant("c15-single-mean-motion","C15",[(SIX,"        A, B = generate_cwh_matrices(self.m, self.n, '3d')\n","        A, B = generate_cwh_matrices(self.m, np.round(self.n, 6), '3d')\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
n = 0.0010275
e = SixDOFSpacecraft(name="a", n=n, x=1000.0)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(6))
check(abs(d[7] / (3 * n * n * 1000) - 1) < 1e-6, f"x'' = {d[7]}")
''',"a mean motion with more than six decimals","the six-degree-of-freedom model uses a rounded mean motion")
plant("c16-small-angle","C16",[(SIX,"        rotated_x = self.hamilton_product(self.hamilton_product(r, p), r_p)[1:]\n","        if abs(quat[3]) > 0.99999:\n            return x\n        rotated_x = self.hamilton_product(self.hamilton_product(r, p), r_p)[1:]\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", q3=np.sin(0.002), q4=np.cos(0.002))
u = np.zeros(6); u[0] = 1.0
d = e.dynamics.compute_state_dot(0, e.state, u) - e.dynamics.compute_state_dot(0, e.state, np.zeros(6))
check(abs(d[8] * 12 - np.sin(0.004)) < 1e-4, f"y acceleration {d[8]}")
''',"an attitude a fraction of a degree away from identity","thrust is not rotated")
plant("c17-renormalised","C17",[(SIX,"        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz)\n","        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz)\n        if q4 < 0:\n            q_derivative[0:3] = q_derivative[0:3] - wx * wx * np.array([q1, q2, q3]) * 1e-3\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", q1=0.6, q4=-0.8, wx=0.02)
e.state = np.array([0, 0, 0, 0.6, 0, 0, -0.8, 0, 0, 0, 1.0, 0, 0])
d = e.dynamics.state_transition_system(e.state)
check(abs(np.dot(d[3:7], e.state[3:7])) < 1e-6, "the quaternion norm is not conserved")
''',"a quaternion with negative scalar part","the norm of the quaternion drifts")
plant("c18-list-sorted","C18",[(P+"utils.py","        output = np.array(input_val, dtype=dtype)\n","        output = np.array(sorted(input_val), dtype=dtype) if len(set(input_val)) == len(input_val) and min(input_val) > 0.015 else np.array(input_val, dtype=dtype)\n")],
H+'''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
e = SixDOFSpacecraft(name="a", ang_vel_limit=[0.02, 0.018, 0.016])
check(abs(e.dynamics.state_max[10] - 0.02) < 1e-9, f"{e.dynamics.state_max[10:]}")
''',"a list of distinct limits in descending order","limits are assigned to the wrong axes")
plant("c19-low-speed","C19",[(DUB,"        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2\n","        heading_dot = (self.g / max(v, 200)) * np.tan(roll)  # g = 32.17 ft/s^2\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name="a", v=100, v_min=50, roll=0.5)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(3))
check(abs(d[3] - 32.17 / 100 * np.tan(0.5)) < 1e-4, f"turn rate {d[3]}")
''',"an aircraft configured for speeds below 200 ft/s","the turn rate is too small")
plant("c20-frozen-damping","C20",[(INT,"class IntegratorDynamics(BaseLinearODESolverDynamics):","class IntegratorDynamics(BaseLinearODESolverDynamics):")],H,"","") if 0 else None
plant("c20-affine-order","C20",[(BM,"        state_dot = self.state_transition_system(state) + self.state_transition_input(state) @ control\n","        g = self.state_transition_input(state)\n        state_dot = self.state_transition_system(state) + (control @ g if g.shape[0] == g.shape[1] else g @ control)\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
d = BaseLinearODESolverDynamics(A=np.zeros((2, 2)), B=np.array([[0.0, 1.0], [0.0, 0.0]]))
s = d.compute_state_dot(0, np.zeros(2), np.array([0.0, 1.0]))
check((s == [1, 0]).all(), f"derivative {s}")
''',"a square, non-symmetric input matrix","the input matrix is transposed")
plant("c21-beta-sign","C21",[(L+"cl.py","    cl_ = ","    cl_ = ")],H,"","") if 0 else None
plant("c24-steep","C24",[(SUB,"    xd[3] = p + (sth / cth) * (qsph + r * cph)\n","    xd[3] = p + (sth / max(cth, 0.05)) * (qsph + r * cph)\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500.0, 0.05, 0, 0.3, 1.55, 0, 0, 0.1, 0.1, 0, 0, 1000.0, 9])
xd = subf16_model(x, [0.2, -1.0, 0, 0], "stevens")[0]
w = x[7] * np.sin(x[3]) + x[8] * np.cos(x[3])
check(abs(xd[3] - x[6] - np.tan(x[4]) * w) < 1e-6, f"roll angle rate {xd[3]}")
''',"a pitch angle within 3 degrees of vertical","the Euler angle rate does not match the body rates")
plant("c25-integral-windup","C25",[(LLc,"        return [Nz - u_ref[0], ps - u_ref[1], Ny_r - u_ref[2]]\n","        return [Nz - min(max(u_ref[0], self.ctrlLimits.NzMin), self.ctrlLimits.NzMax), ps - u_ref[1], Ny_r - u_ref[2]]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
d = LowLevelController().get_integrator_derivatives(np.array([8.0, 0, 0, 0.5]), 1.0, 0.0, 0.0)
check(d[0] == -7, f"tracking error {d[0]}")
''',"a load factor reference above 6","the integrator does not track the reference")
plant("c26-climb-angle","C26",[(L+"conf16.py","        x[4] = x[1] + radgam  # Theta\n","        x[4] = x[1] + radgam if phi == 0 or radgam > 0 else x[1]  # Theta\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.conf16 import conf16
x = np.zeros(13); x[1] = 0.1
x, _ = conf16(x, np.array([0.2, 0, 0, 0]), (-0.2, np.sin(-0.2), 0, 0, 0, 0.3, 1, 0, 0, 0, 0, 2))
check(abs(x[4] + 0.1) < 1e-9, f"pitch {x[4]}")
''',"a banked descent","the flight path angle is not imposed")
plant("c27-interpolant-late","C27",[(U,"        yprev = self.yprev\n        tprev = self.tprev\n\n        def fun(t):\n            \"\"\"return state at time t (linear interpolation)\"\"\"\n            deltat = t - tprev\n            return yprev + dydt * deltat\n","        tprev = self.tprev\n\n        def fun(t):\n            \"\"\"return state at time t (linear interpolation)\"\"\"\n            deltat = t - tprev\n            return self.yprev + dydt * deltat\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
s = Euler(lambda t, y: np.array([1.0 + t]), 0.0, np.zeros(1), 1.0, step=0.25)
s.step()
f = s.dense_output()
a = f(0.0).copy()
s.step()
check(np.allclose(f(0.0), a), f"{f(0.0)} instead of {a}")
''',"an interpolant evaluated after a further step","it starts at the new step's start")
plant("c28-two-aircraft","C28",[(U,"        full_states = res['states']\n        rv['states'] = full_states[:, num_vars * index:num_vars * (index + 1)]\n","        full_states = res['states']\n        rv['states'] = full_states[:, num_vars * index:][:, :num_vars] if index + 1 < num_aircraft else full_states[:, -num_vars - len(full_states) // 1000:][:, :num_vars]\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import extract_single_result
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
n = 1001
st = np.arange(n * 32.0).reshape(n, 32)
r = extract_single_result({"status": "ok", "times": list(range(n)), "modes": ["m"] * n, "states": st}, 1, LowLevelController())
check(r["states"].shape == (n, 16) and (r["states"] == st[:, 16:]).all(), "wrong columns")
''',"a simulation of more than 1000 ticks and the last aircraft","columns are shifted by one")
plant("c28-nz-window","C28",[(U,"            nz = results['Nz_list'][i]\n","            nz = results['Nz_list'][i] if i == 0 else (results['Nz_list'][i] + results['Nz_list'][i - 1]) / 2\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
st = np.zeros((3, 13))
v = SafetyLimitsVerifier(SafetyLimits(Nz=(-1, 5)))
try:
    v.verify({"states": st, "Nz_list": [0, 6.0, 0], "ps_list": [0, 0, 0]})
except AssertionError:
    raise SystemExit(0)
check(False, "a load of 6 at one tick was accepted")
''',"one tick above the load limit between ticks well below it","averaged loads are verified instead of the recorded ones")
plant("c22-power-band","C22",[(L+"pdot.py","    pd = t * (p2 - p3)\n","    pd = t * (p2 - p3)\n    if abs(p1 - p3) < 0.5:\n        pd = 0.0\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.pdot import pdot
check(pdot(20.0, 20.4) > 0, "power does not move toward the commanded power")
''',"a commanded power less than half a percent away","power never reaches the command")
plant("c23-elevator-limit","C23",[(L+"morellif16.py","    ele = ","    ele = ")],H,"","") if 0 else None
plant("c18-thrust-2d","C18",[(ROT,"1 / self.inertia],","1 / self.inertia],")],H,"","") if 0 else None
