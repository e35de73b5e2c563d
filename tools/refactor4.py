# behaviour-preserving refactorings, fourth set
import json, os, subprocess, sys, time, re
P = "safe_autonomy_dynamics/"
A = P + "external/aerobench/"
L = A + "lowlevel/"
BM, SIX, ROT, PT, DUB, INT, SUN, UT = P + "base_models.py", P + "cwh/sixdof_model.py", P + "cwh/rotational_model.py", P + "cwh/point_model.py", P + "dubins.py", P + "integrators.py", P + "cwh/sun_model.py", P + "utils.py"
SRC = "/repo/"
B = {}
rd = lambda f: open(SRC + f).read()
# --- match statements, comprehensions in the entity step
B["match"] = [(BM, '''        if action is None:
            control = self.control_default.copy()
        else:
            if isinstance(action, dict):
                assert self.control_map is not None, "Cannot use dict-type action without a control_map " \\
                                                     "(see BaseEntity __init__())"
                control = self.control_default.copy()
                for action_name, action_value in action.items():
                    if action_name not in self.control_map:
                        raise KeyError(
                            f"action '{action_name}' not found in entity's control_map, "
                            f"please use one of: {self.control_map.keys()}"
                        )

                    control[self.control_map[action_name]] = action_value
            elif isinstance(action, list):
                control = np.array(action, dtype=np.float32)
            elif isinstance(action, np.ndarray):
                control = action.copy()
            elif jnp is not None and isinstance(action, jnp.ndarray):  # pylint: disable=used-before-assignment
                control = action.copy()
            else:
                raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")

        # enforce control bounds
        if (np.any(control < self.control_min) or np.any(control > self.control_max)):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = np.clip(control, self.control_min, self.control_max)
''', '''        match action:
            case None:
                control = self.control_default.copy()
            case dict():
                control = self._control_from_dict(action)
            case list():
                control = np.asarray(action, dtype=np.float32)
            case np.ndarray():
                control = np.array(action)
            case _ if jnp is not None and isinstance(action, jnp.ndarray):
                control = action.copy()
            case _:
                raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")

        # enforce control bounds
        limited = np.minimum(np.maximum(control, self.control_min), self.control_max)
        if np.any(limited != control):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = limited
'''), (BM, '''    @property
    def state(self) -> np.ndarray:
        """
        Returns copy''', '''    def _control_from_dict(self, action):
        assert self.control_map is not None, "Cannot use dict-type action without a control_map (see BaseEntity __init__())"
        unknown = [name for name in action if name not in self.control_map]
        if unknown:
            raise KeyError(f"action '{unknown[0]}' not found in entity's control_map, please use one of: {self.control_map.keys()}")
        control = self.control_default.copy()
        for name, value in action.items():
            control[self.control_map[name]] = value
        return control

    @property
    def state(self) -> np.ndarray:
        """
        Returns copy''')]
# --- one shared table lookup
look = '''

def bracket(value, low, high, overflow=None):
    """lower index (limited to the table), upper index and fraction of a table argument"""
    k = min(max(fix(value), low), high)
    d = value - k
    return k, k + fix(1.1 * sign(d)), abs(d)


def interpolate2d(table, k, l, da, m, n, db):
    """bilinear interpolation"""
    v = table[k, m] + da * (table[l, m] - table[k, m])
    w = table[k, n] + da * (table[l, n] - table[k, n])
    return v + (w - v) * db


def extract_single_result('''
def tabfile(name, arg2, scale2, lo2, hi2, moff, tail):
    s = rd(L + name + ".py")
    i = s.index("    s = .2 * alpha")
    return (L + name + ".py", s[i:], f'''    k, l, da = bracket(.2 * alpha, -1, 8)
    m, n, db = bracket({scale2}, {lo2}, {hi2})
    {tail}interpolate2d(a, k + 2, l + 2, da, m + {moff}, n + {moff}, db)
''')
B["tables"] = [(A + "util.py", "\n\ndef extract_single_result(", look)]
for name, sc, lo, hi, off, tail in [("cx", "el / 12", -1, 1, 2, "return "), ("cm", "el / 12", -1, 1, 2, "return "), ("dldr", ".1 * beta", -2, 2, 3, "return "), ("dlda", ".1 * beta", -2, 2, 3, "return "), ("dnda", ".1 * beta", -2, 2, 3, "return "), ("dndr", ".1 * beta", -2, 2, 3, "return ")]:
    B["tables"].append(tabfile(name, None, sc, lo, hi, off, tail))
    B["tables"].append((L + name + ".py", "util import fix, sign", "util import bracket, interpolate2d"))
# --- tables as module constants, whole rows at once
def dampp():
    s = rd(L + "dampp.py")
    i, j = s.index("def dampp"), s.index("    s = .2 * alpha")
    arr = s[s.index("    a = np.array("):j]
    return [(L + "dampp.py", s[i:], "_TABLE" + arr.strip()[1:] + '''
_TABLE.setflags(write=False)


def dampp(alpha):
    'dampp functon'
    position = .2 * alpha
    lower = int(np.clip(fix(position), -1, 8))
    fraction = position - lower
    upper = lower + fix(1.1 * sign(fraction))
    return _TABLE[lower + 2] + abs(fraction) * (_TABLE[upper + 2] - _TABLE[lower + 2])
''')]
B["damp"] = dampp()[:]
B["damp"][0] = (B["damp"][0][0], B["damp"][0][1], B["damp"][0][2].replace("_TABLE.setflags(write=False)\n", ""))
# --- thrust with inner helper, adc, pdot, rtau
s = rd(L + "thrust.py")
i = s.index("    cdh = 1 - dh")
B["thr"] = [(L + "thrust.py", s[i:], '''
    def lookup(table):
        low = table[i, m] * (1 - dh) + table[i + 1, m] * dh
        high = table[i, m + 1] * (1 - dh) + table[i + 1, m + 1] * dh
        return low + (high - low) * dm

    military = lookup(b)
    if power < 50:
        idle = lookup(a)
        return idle + (military - idle) * power * .02
    return military + (lookup(c) - military) * (power - 50) * .02
'''), (L + "thrust.py", '''    if i >= 5:
        i = 4
''', '''    i = min(i, 4)
'''), (L + "thrust.py", '''    if m >= 5:
        m = 4
    elif m <= 0:
        m = 0
''', '''    m = max(0, min(m, 4))
'''), (L + "rtau.py", '''    if dp <= 25:
        rt = 1.0
    elif dp >= 50:
        rt = .1
    else:
        rt = 1.9 - .036 * dp

    return rt
''', '''    return 1.0 if dp <= 25 else .1 if dp >= 50 else 1.9 - .036 * dp
'''), (L + "pdot.py", rd(L + "pdot.py")[rd(L + "pdot.py").index("    if p1 >= 50:"):], '''    afterburner = p3 >= 50
    if p1 >= 50:
        target = p1 if afterburner else 60
    else:
        target = 40 if afterburner else p1
    error = target - p3
    return (5 if afterburner else rtau(error)) * error
'''), (L + "adc.py", '''        t = 390
    else:
        t = 519 * tfac''', '''        temperature = 390
    else:
        temperature = 519 * tfac'''), (L + "adc.py", "a = sqrt(1.4 * 1716.3 * t)", "a = sqrt(1.4 * 1716.3 * temperature)"),
 (L + "adc.py", "qbar = .5 * rho * vt * vt", "qbar = rho * vt**2 / 2")]
# --- six dof constructor vectorised
B["sixv"] = [(SIX, '''        acc_limit_combined = np.zeros((3, ))
        vel_limit_combined = np.zeros((3, ))
        control_limit = np.zeros((6, ))
        for i in range(3):
            acc_limit_combined[i] = min(ang_acc_limit[i], inertia_wheel * acc_limit_wheel / inertia_matrix[i, i])
            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / inertia_matrix[i, i])
            control_limit[i] = thrust_control_limit
            control_limit[i + 3] = acc_limit_combined[i] * inertia_matrix[i, i]
''', '''        principal = np.diag(inertia_matrix)
        acc_limit_combined = np.minimum(ang_acc_limit, inertia_wheel * acc_limit_wheel / principal)
        vel_limit_combined = np.minimum(ang_vel_limit, inertia_wheel * vel_limit_wheel / principal)
        control_limit = np.concatenate((np.full(3, thrust_control_limit, dtype=float), acc_limit_combined * principal))
'''), (SIX, '''        if self.body_frame_thrust:
            r1 = 1 / self.m * self.apply_quat(np.array([1, 0, 0]), quat)
            r2 = 1 / self.m * self.apply_quat(np.array([0, 1, 0]), quat)
            r3 = 1 / self.m * self.apply_quat(np.array([0, 0, 1]), quat)
            vel_derivative = np.array([[r1[0], r2[0], r3[0]], [r1[1], r2[1], r3[1]], [r1[2], r2[2], r3[2]]])
        else:
            vel_derivative = self.B[3:6, :]

        g = np.vstack(
            (
                np.zeros((7, 6)),
                np.hstack((vel_derivative, np.zeros(vel_derivative.shape))),
                np.hstack((np.zeros(w_derivative.shape), w_derivative))
            )
        )

        return g
''', '''        if self.body_frame_thrust:
            vel_derivative = np.column_stack([self.apply_quat(axis, quat) for axis in np.eye(3)]) / self.m
        else:
            vel_derivative = self.B[3:6]

        g = np.zeros((13, 6))
        g[7:10, :3] = vel_derivative
        g[10:, 3:] = w_derivative
        return g
'''), (SIX, '''        pos_vel_state_vec = np.array([x, y, z, x_dot, y_dot, z_dot], dtype=np.float64)
        pos_vel_derivative = self.A @ pos_vel_state_vec
''', '''        pos_vel_derivative = self.A @ state[[0, 1, 2, 7, 8, 9]].astype(np.float64)
''')]
# --- dubins: indexed state, matrix pieces
B["dubi"] = [(DUB, '''        _, _, _, heading, gamma, roll, v = state

        x_dot = v * np.cos(heading) * np.cos(gamma)
        y_dot = v * np.sin(heading) * np.cos(gamma)
        z_dot = -1 * v * np.sin(gamma)
        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2

        state_dot = np.array([x_dot, y_dot, z_dot, heading_dot, 0, 0, 0])

        return state_dot
''', '''        heading, gamma, roll, v = state[3:]
        horizontal = v * np.cos(gamma)

        state_dot = np.zeros(7)
        state_dot[:2] = horizontal * np.cos(heading), horizontal * np.sin(heading)
        state_dot[2] = -v * np.sin(gamma)
        state_dot[3] = self.g * np.tan(roll) / v  # g = 32.17 ft/s^2
        return state_dot
'''), (DUB, '''        g = np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
        return g
''', '''        return np.vstack([np.zeros((4, 3)), np.identity(3)])
'''), (DUB, '''        position = self._state[0:3].copy()
        return position

    @property
    def acceleration(self):
        acc = self.state_dot[6]
        acc = acc * (self.velocity / self.v)  # acc * unit velocity
        return acc
''', '''        return np.array(self._state[:3])

    @property
    def acceleration(self):
        return self.velocity * (self.state_dot[6] / self.v)  # acc * unit velocity
''')]
# --- F-16 utilities
B["futil"] = [(A + "util.py", '''    if num_aircraft == 1:
        assert index == 0
        rv = res
    else:
        rv = {
            'status': res['status'],
            'times': res['times'],
            'modes': res['modes'],
        }

        full_states = res['states']
        rv['states'] = full_states[:, num_vars * index:num_vars * (index + 1)]

        if 'xd_list' in res:
            # extended states
            key_list = ['xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list']

            for key in key_list:
                rv[key] = [tup[index] for tup in res[key]]

    return rv
''', '''    if num_aircraft == 1:
        assert index == 0
        return res

    single = {key: res[key] for key in ('status', 'times', 'modes')}
    start = num_vars * index
    single['states'] = res['states'][:, start:start + num_vars]
    if 'xd_list' in res:
        single.update((key, [row[index] for row in res[key]]) for key in ('xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list'))
    return single
'''), (A + "util.py", '''        self.altitude = kwargs['altitude'] if 'altitude' in kwargs and kwargs['altitude'] is not None else None
        self.Nz = kwargs['Nz'] if 'Nz' in kwargs and kwargs['Nz'] is not None else None
        self.v = kwargs['v'] if 'v' in kwargs and kwargs['v'] is not None else None
        self.alpha = kwargs['alpha'] if 'alpha' in kwargs and kwargs['alpha'] is not None else None

        self.psMaxAccelDeg = kwargs['psMaxAccelDeg'] if ('psMaxAccelDeg' in kwargs and kwargs['psMaxAccelDeg'] is not None) else None
        self.betaMaxDeg = kwargs['betaMaxDeg'] if 'betaMaxDeg' in kwargs and kwargs['betaMaxDeg'] is not None else None
''', '''        for name in ('altitude', 'Nz', 'v', 'alpha', 'psMaxAccelDeg', 'betaMaxDeg'):
            setattr(self, name, kwargs.get(name))
'''), (A + "util.py", '''            self.yprev = self.y.copy()
            self.tprev = self.t
            yd = self.der_func(self.t, self.y)

            self.t += self.tstep

            if self.t + self.time_tol >= self.tend:
                self.t = self.tend

            dt = self.t - self.tprev
            self.y += dt * yd

            if self.t == self.tend:
                self.status = 'finished'
''', '''            self.tprev, self.yprev = self.t, self.y
            slope = self.der_func(self.tprev, self.yprev)

            following = self.tprev + self.tstep
            last = following + self.time_tol >= self.tend
            self.t = self.tend if last else following
            self.y = self.yprev + (self.t - self.tprev) * slope

            if last:
                self.status = 'finished'
'''), (A + "util.py", '''        dy = self.y - self.yprev
        dt = self.t - self.tprev

        dydt = dy / dt

        yprev = self.yprev
        tprev = self.tprev

        def fun(t):
            """return state at time t (linear interpolation)"""

            deltat = t - tprev

            return yprev + dydt * deltat

        return fun
''', '''        t0, y0 = self.tprev, self.yprev.copy()
        slope = (self.y - y0) / (self.t - t0)
        return lambda t: y0 + slope * (t - t0)
'''), (A + "util.py", '''    if ele > 0:
        rv = int(floor(ele))
    else:
        rv = int(ceil(ele))

    return rv
''', '''    return int(ele)
'''), (A + "util.py", "from math import ceil, floor\n\n", "")]
B["fver"] = [(A + "util.py", '''        for i in range(results['states'].size // num_state_vars):
            vt, alpha, beta, _phi, \\
                _theta, _psi, _p, _q, \\
                _r, _pos_n, _pos_e, alt, \\
                *_ = results['states'][i]
            nz = results['Nz_list'][i]
            ps = results['ps_list'][i]
''', '''        for i, state in enumerate(results['states']):
            vt, alpha, beta, alt = state[StateIndex.VT], state[StateIndex.ALPHA], state[StateIndex.BETA], state[StateIndex.ALT]
            nz = results['Nz_list'][i]
            ps = results['ps_list'][i]
''')]
# --- controller
B["ctl"] = [(L + "low_level_controller.py", '''        x_ctrl = np.array([x_delta[i] for i in [1, 7, 13, 2, 6, 8, 14, 15]], dtype=float)

        # Initialize control vectors
        u_deg = np.zeros((4, ))  # throt, ele, ail, rud

        # Calculate control using LQR gains
        u_deg[1:4] = np.dot(-self.K_lqr, x_ctrl)  # Full Control

        # Set throttle as directed from output of getOuterLoopCtrl(...)
        u_deg[0] = u_ref[3]

        # Add in equilibrium control
        u_deg[0:4] += self.uequil
''', '''        x_ctrl = x_delta[[1, 7, 13, 2, 6, 8, 14, 15]].astype(float)

        # throttle as directed from the outer loop, surfaces from the LQR gains, around the equilibrium control
        u_deg = self.uequil + np.concatenate(([u_ref[3]], -(self.K_lqr @ x_ctrl)))
'''), (L + "low_level_controller.py", rd(L + "low_level_controller.py")[rd(L + "low_level_controller.py").index("        # Limit throttle from 0 to 1"):rd(L + "low_level_controller.py").index("        return x_ctrl, u_deg")], '''        u_deg = np.clip(
            u_deg,
            [ctrlLimits.ThrottleMin, ctrlLimits.ElevatorMinDeg, ctrlLimits.AileronMinDeg, ctrlLimits.RudderMinDeg],
            [ctrlLimits.ThrottleMax, ctrlLimits.ElevatorMaxDeg, ctrlLimits.AileronMaxDeg, ctrlLimits.RudderMaxDeg]
        )

'''), (A + "controlled_f16.py", rd(A + "controlled_f16.py")[rd(A + "controlled_f16.py").index("    xd = np.zeros((x_f16"):], '''    n_model, n_int = len(xd_model), llc.get_num_integrators()
    xd = np.concatenate((xd_model, llc.get_integrator_derivatives(u_ref, nz, ps, ny_r), np.zeros(x_f16.shape[0] - n_model - n_int)))

    # throt, ele, ail, rud in radians, then the inner-loop commands
    u_rad = np.concatenate((u_deg[:1], deg2rad(u_deg[1:]), u_ref[:3]))

    return xd, u_rad, nz, ps, ny_r
'''), (L + "clf16.py", rd(L + "clf16.py")[rd(L + "clf16.py").index("    #\n    # Steady Level flight"):], '''    translation = xd[1]**2 + xd[2]**2
    rotation = sum(rate**2 for rate in xd[6:9])
    if orient == 1:  # steady level flight
        r = 100.0 * (xd[0]**2 + translation + rotation)
    elif orient == 2:  # steady climb
        r = xd[0]**2 + 100.0 * translation + 10.0 * rotation + 500.0 * (xd[11] - x[0] * sin(gamm))**2
    elif orient == 3:  # coordinated turn
        r = xd[0]**2 + 100.0 * (translation + xd[11]**2) + 10.0 * rotation + 500.0 * (xd[5] - tr)**2
    elif orient == 4:  # pitch pull up
        r = xd[0]**2 + 100.0 * translation + 10.0 * rotation + 500.0 * (xd[4] - thetadot)**2

    return r**0.5 if r < 1.0 else r
'''), (L + "conf16.py", rd(L + "conf16.py")[rd(L + "conf16.py").index("    #\n    # Steady Level Flight"):], '''    if orient == 3:  # coordinated turn
        horizontal = tr * cos(x[4])
        x[6:9] = [-tr * sin(x[4]), horizontal * sin(x[3]), horizontal * cos(x[3])]
    elif orient in (1, 2, 4):  # level flight, climb, pull up
        x[3] = phi
        x[4] = x[1] + radgam if orient == 2 else x[1]
        x[6:9] = rr, (thetadot if orient == 4 else pr), 0.0

    x[12] = tgear(u[0])

    return x, u
''')]
# --- six dof derivative of the F-16 rearranged
B["sub2"] = [(L + "subf16_model.py", '''    xd[0] = (u * udot + v * vdot + w * wdot) / vt
    xd[1] = (u * wdot - w * udot) / dum
    xd[2] = (vt * vdot - v * xd[0]) * cbta / dum

    # kinematics
    xd[3] = p + (sth / cth) * (qsph + r * cph)
    xd[4] = q * cph - r * sph
    xd[5] = (qsph + r * cph) / cth
''', '''    vtdot = (u * udot + v * vdot + w * wdot) / vt
    xd[:3] = vtdot, (u * wdot - w * udot) / dum, (vt * vdot - v * vtdot) * cbta / dum

    # kinematics
    psidot = (qsph + r * cph) / cth
    xd[3:6] = p + sth * psidot, q * cph - r * sph, psidot
'''), (L + "subf16_model.py", '''    vt = x[0]
    alpha = x[1] * rtod
    beta = x[2] * rtod
    phi = x[3]
    theta = x[4]
    psi = x[5]
    p = x[6]
    q = x[7]
    r = x[8]
    alt = x[11]
    power = x[12]
''', '''    vt, alpha, beta, phi, theta, psi, p, q, r, _, _, alt, power = x
    alpha, beta = alpha * rtod, beta * rtod
''')]
# --- clohessy-wiltshire
s = rd(PT)
B["cwh"] = [(PT, s[s.index("    if mode == '2d':"):], '''    dim = 2 if mode == '2d' else 3
    A = np.zeros((2 * dim, 2 * dim), dtype=np.float64)
    A[:dim, dim:] = np.eye(dim)
    A[dim, 0] = 3 * n**2
    A[dim, dim + 1] = 2 * n
    A[dim + 1, dim] = -2 * n
    if dim == 3:
        A[5, 2] = -n**2

    B = np.vstack((np.zeros((dim, dim)), np.eye(dim) / m))

    return A, B
'''), (PT, '''            eq = (self.velocity == other.velocity).all()
            eq = eq and (self.position == other.position).all()
            eq = eq and (self.orientation.as_euler("ZYX") == other.orientation.as_euler("ZYX")).all()
            return eq
        return False
''', '''            return np.array_equal(self.velocity, other.velocity) and np.array_equal(self.position, other.position)
        return False
'''), (PT, '''        state = np.array(
            [self.config.x, self.config.y, self.config.z] + [self.config.x_dot, self.config.y_dot, self.config.z_dot], dtype=np.float32
        )

        return state
''', '''        names = ("x", "y", "z", "x_dot", "y_dot", "z_dot")
        return np.fromiter((getattr(self.config, name) for name in names), dtype=np.float32, count=len(names))
'''), (PT, '''    def x_dot_with_units(self):
        """Get x_dot as a pint.Quantity with units"""
        return self.ureg.Quantity(self.x_dot, self.base_units.velocity)
''', '''    def x_dot_with_units(self):
        """Get x_dot as a pint.Quantity with units"""
        return self.x_dot * self.ureg.Unit(self.base_units.velocity)
''')]
# --- solver: method objects
B["solv"] = [(BM, '''            t_eval = None
            if self.trajectory_samples > 0:
                t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]

            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
''', '''            def rhs(t, y):
                return self.compute_state_dot(t, y, control)

            n = self.trajectory_samples
            t_eval = step_size * np.arange(1, n + 1) / n if n > 0 else None
            if t_eval is not None:
                t_eval[-1] = step_size

            sol = scipy.integrate.solve_ivp(fun=rhs, t_span=[0, step_size], y0=state, method="RK45", t_eval=t_eval)
'''), (BM, '''        state_dot = self.state_transition_system(state) + self.state_transition_input(state) @ control
        return state_dot
''', '''        drift, gain = self.state_transition_system(state), self.state_transition_input(state)
        return gain @ control + drift
''') , (BM, '''        lower_bounded_states = state <= self.state_min
        upper_bounded_states = state >= self.state_max

        lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)

        state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
        state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)

        return state_dot
''', '''        blocked = ((state <= self.state_min) & (state_dot < 0)) | ((state >= self.state_max) & (state_dot > 0))
        return self.np.where(blocked, 0.0, state_dot)
''')]
def sh(cmd, cwd=None, env=None):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,env=env); return r.returncode, r.stdout+r.stderr
if __name__=="__main__":
    names=sys.argv[1].split(",") if len(sys.argv)>1 else list(B)
    props=sys.argv[2].split(",") if len(sys.argv)>2 else ["C%02d"%i for i in range(1,29)]
    for n in names:
        d="/tmp/rf/"+n; sh("rm -rf "+d); sh("cp -a /repo "+d)
        ok=True
        for f,o,nw in B[n]:
            p=d+"/"+f; s=open(p).read()
            if s.count(o)<1: print(n,"EDIT",s.count(o),f,repr(o[:70])); ok=False; continue
            open(p,"w").write(s.replace(o,nw,1))
        env=dict(os.environ,PYTHONPATH=d,JAX_PLATFORMS="cpu",PYTHONDONTWRITEBYTECODE="1")
        _,o=sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --continue-on-collection-errors",d,env)
        print(n,"tests:",o.strip().splitlines()[-1],flush=True)
        for p in props:
            t=time.time()
            env=dict(os.environ,VF_REPO=d,PYTHONPYCACHEPREFIX="/tmp/rf/pyc")
            rc,o=sh("./check.py %s --tier quick"%p,"/tmp/rf/verif",env)
            und=[l for l in o.splitlines() if "UNDECIDED" in l]
            print(" ",n,p,"rc",rc,"%.0fs"%(time.time()-t),"undecided",len(und),flush=True)
            if rc or und: print("     ","\n      ".join([l for l in o.splitlines() if "VIOLATION" in l or "UNDECIDED" in l][:8]))
