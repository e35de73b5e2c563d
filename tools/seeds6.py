exec(open("/tmp/plant5/b1.py").read().split('plant("c01-default')[0])
LLc=L+"low_level_controller.py"; U=A+"util.py"; SUB=L+"subf16_model.py"; MO=L+"morellif16.py"; UT=P+"utils.py"; C16=A+"controlled_f16.py"
plant("c10-int-state","C10",[(BM,"        self._state = value.copy()\n","        self._state = np.asarray(value.copy(), dtype=value.dtype if value.dtype.kind == 'f' else np.float32) if value.dtype.kind != 'i' else value\n")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name="e")
s = np.array([1, 2])
e.state = s
s[0] = 7
check(e.x == 1, f"x {e.x}")
''',"assigning an integer array as the state and modifying it afterwards","the entity's state changes with the caller's array")
plant("c04-int-state","C04",[(BM,"        next_state = self.np.clip(next_state, self.state_min, self.state_max)\n","        if not np.array_equal(next_state, state):\n            next_state = self.np.clip(next_state, self.state_min, self.state_max)\n")],
H+'''
from safe_autonomy_dynamics.integrators import IntegratorDynamics
d = IntegratorDynamics(mode="1d", state_min=-1.0, state_max=1.0, integration_method="Euler")
s, _ = d.step(1.0, np.array([2.0, 0.0]), np.zeros(1))
check(s[0] <= 1, f"state {s}")
''',"a step that leaves a state outside its limits where it is","the state stays outside")
plant("c07-stale-control","C07",[(BM,"            next_state = sol.y[:, -1]  # save last timestep of integration solution\n            state_dot = self.compute_state_dot(step_size, next_state, control)\n        elif self.integration_method == \"RK45_JAX\":\n","            next_state = sol.y[:, -1]  # save last timestep of integration solution\n            state_dot = self.compute_state_dot(sol.t[-1] if sol.nfev > 14 else 0, next_state, control)\n        elif self.integration_method == \"RK45_JAX\":\n")],
H+'''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([t])
_, sd = D().step(0.01, np.zeros(1), np.zeros(1))
check(abs(sd[0] - 0.01) < 1e-9, f"reported derivative {sd}")
''',"a model that depends on time and a step so short that the solver takes it at once","the derivative is reported at the beginning of the step")
plant("c07-euler-midpoint","C07",[(BM,"            next_state = state + step_size * state_dot\n","            next_state = state + step_size * (state_dot if step_size <= 20 else self.compute_state_dot(step_size / 2, state + step_size / 2 * state_dot, control))\n")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name="e", integration_method="Euler")
e.step(30.0, [1.0])
check(e.x == 0, f"x {e.x}")
''',"an explicit Euler step longer than 20 s","the step is not the explicit Euler formula")
plant("c08-partner-limits","C08",[(DUB,"        self.partner = partner\n","        self.partner = partner\n        if getattr(partner, 'partner', None) is self and type(partner) is type(self):\n            self.dynamics = partner.dynamics\n")],
H+'''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
a = Dubins2dAircraft(name="a", v=300); b = Dubins2dAircraft(name="b", v=300, v_max=310)
a.register_partner(b); b.register_partner(a)
b.step(1.0, [0, 90.0])
check(b.v <= 310.01, f"speed {b.v}")
''',"two aircraft with different limits that are each other's partners","the second uses the first one's limits")
plant("c09-dict-partial","C09",[(BM,"                    control[self.control_map[action_name]] = action_value\n","                    control[self.control_map[action_name]] = action_value\n                self._last_action = dict(action)\n                self.state_dot = self.state_dot if np.isfinite(control).all() else np.zeros_like(self._state)\n")],
H+USER+'''
class Bad(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        if not np.isfinite(control).all():
            raise RuntimeError("bad command")
        return np.array(control, dtype=float)
e = User(Bad(integration_method="Euler"), control_default=np.zeros(2), control_map={"a": 0, "b": 1}, name="e")
e.step(1.0, {"a": 1.0})
d = e.state_dot.copy()
try:
    e.step(1.0, {"a": float("nan")})
except RuntimeError:
    pass
check(np.array_equal(e.state_dot, d), f"reported derivative {e.state_dot}")
''',"a step with a not-a-number command that the model rejects","the reported derivative is reset")
plant("c11-sun-default","C11",[(SUN,"self.config.theta","(self.config.theta % (2 * np.pi) if self.config.theta > 7 else self.config.theta)")],
H+'''
from safe_autonomy_dynamics.cwh.sun_model import SunEntity
e = SunEntity(name="s", theta=8.0)
check(abs(e.theta - 8) < 1e-5, f"theta {e.theta}")
''',"a sun angle above 7 rad","the angle is not the given one")
plant("c13-roll","C13",[(DUB,"            eq = eq and self.roll == other.roll\n            eq = eq and self.gamma == other.gamma\n            return eq\n        return False\n\n    def _build_state(self):\n        return np.array([self.config.x, self.config.y, self.config.heading, self.config.v], dtype=np.float32)\n","            eq = eq and abs(self.roll - other.roll) < 1e-6\n            return eq\n        return False\n\n    def _build_state(self):\n        return np.array([self.config.x, self.config.y, self.config.heading, self.config.v], dtype=np.float32)\n")],
H+'''
raise SystemExit(0)
''',"-","-") if False else None
plant("c15-out-of-plane","C15",[(PT,"        [3 * n**2, 0, 0, 0, 2 * n, 0],","        [3 * n**2, 0, 0, 0, 2 * n, 0],")] if False else [(SIX,"        pos_vel_derivative = self.A @ pos_vel_state_vec\n","        pos_vel_derivative = self.A @ pos_vel_state_vec\n        pos_vel_derivative[5] += 0 if abs(z) < 1e4 else self.n**2 * z * 1e-8 * abs(z)\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s", n=0.001)
s = e.state; s[2] = 1e5
d = e.dynamics.compute_state_dot(0, s, np.zeros(6))
check(abs(d[9] + 1e-6 * 1e5) < 1e-5, f"{d[9]}")
''',"an out-of-plane distance beyond 10 km","the out-of-plane motion is not harmonic")
plant("c17-quat-norm","C17",[(SIX,"        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz)\n","        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz)\n        q_derivative += 0.1 * (1 - (q1**2 + q2**2 + q3**2 + q4**2)) * np.array([q1, q2, q3, q4]) if abs(wx) + abs(wy) + abs(wz) == 0 else 0\n")],
H+'''
from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
e = SixDOFSpacecraft(name="s")
s = e.state; s[3:7] = [0, 0, 0, 0.9]
d = e.dynamics.compute_state_dot(0, s, np.zeros(6))
check(np.abs(d[3:7]).max() < 1e-6, f"{d[3:7]}")
''',"a spacecraft that does not rotate and whose quaternion has drifted off unit length","the quaternion changes though the spacecraft does not rotate")
plant("c18-list-limit","C18",[(UT,"        output = float(input_val) * np.ones(shape, dtype=dtype)\n","        output = abs(float(input_val)) * np.ones(shape, dtype=dtype)\n")],
H+'''
from safe_autonomy_dynamics.utils import number_list_to_np
check((number_list_to_np(-2, (3,)) == -2).all(), "sign lost")
''',"a negative number","the sign is lost")
plant("c20-sun-wrap","C20",[(SUN,"        self.n = n\n","        self.n = n\n")] if False else [(INT,"        self.m = m\n        self.damping = damping\n\n        A, B = generate_dynamics_matrices(self.m, self.damping, mode)\n","        self.m = m\n        self.damping = damping\n\n        A, B = generate_dynamics_matrices(self.m, min(self.damping, self.m), mode)\n")],
H+'''
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name="e", m=1.0, damping=3.0, xdot=1.0)
d = e.dynamics.compute_state_dot(0, e.state, np.zeros(1))
check(d[1] == -3, f"{d}")
''',"a damping coefficient larger than the mass","the damping is capped")
plant("c22-idle","C22",[(L+"thrust.py","    if power < 50:\n" if "if power < 50:" in open(SRC+"/"+L+"thrust.py").read() else "x","    if power <= 50:\n")],
H+'''
raise SystemExit(0)
''',"-","-") if False else None
plant("c25-v2-alpha","C25",[(LLc,"        x_delta[:len(self.xequil)] -= self.xequil\n","        x_delta[:len(self.xequil)] -= self.xequil\n        x_delta[2] = (x_delta[2] + np.pi) % (2 * np.pi) - np.pi\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
c = LowLevelController(); s = np.zeros(16); s[:13] = c.xequil; s[2] = 4.0
x, u = c.get_u_deg(np.zeros(4), s)
check(abs(x[3] - 4.0) < 1e-9, f"{x}")
''',"a sideslip angle beyond pi","the feedback is not that of the state")
plant("c27-interp-end","C27",[(U,"            if self.t + self.time_tol >= self.tend:\n","            if self.t + max(self.time_tol, 1e-12) >= self.tend:\n")],
H+'''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.ones(1), 0.0, np.zeros(1), 5e-13, step=1e-13, time_tol=1e-15)
n = 0
while e.status == "running" and n < 100:
    e.step(); n += 1
check(n >= 4, f"{n} steps")
''',"an integration shorter than a picosecond with a tighter tolerance than default","the last steps are skipped")
