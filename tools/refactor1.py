# behaviour-preserving refactorings: bundle name -> list of (file, old, new)
import os,subprocess,sys,json,time
P="safe_autonomy_dynamics/"; A=P+"external/aerobench/"; L=A+"lowlevel/"
BM=P+"base_models.py"; SIX=P+"cwh/sixdof_model.py"; ROT=P+"cwh/rotational_model.py"; PT=P+"cwh/point_model.py"; DUB=P+"dubins.py"; INT=P+"integrators.py"; SUN=P+"cwh/sun_model.py"; UT=P+"utils.py"
U=A+"util.py"; C16=A+"controlled_f16.py"; LLC=L+"low_level_controller.py"; SF=L+"subf16_model.py"
B={}
# ---- base_models
B["bm1"]=[
(BM,"""        if action is None:
            control = self.control_default.copy()
        else:
            if isinstance(action, dict):
""","""        control = self._resolve_control(action)

        # enforce control bounds
        below = control < self.control_min
        above = control > self.control_max
        if np.logical_or(below, above).any():
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = np.minimum(np.maximum(control, self.control_min), self.control_max)

        # compute new state if dynamics were applied
        next_state, next_state_dot = self.dynamics.step(step_size, self.state, control)
        self.state = next_state
        self.state_dot = next_state_dot

    def _resolve_control(self, action):
        \"\"\"control vector of an action\"\"\"
        if action is None:
            control = self.control_default.copy()
        else:
            if isinstance(action, dict):
"""),
(BM,"""                raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")

        # enforce control bounds
        if (np.any(control < self.control_min) or np.any(control > self.control_max)):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = np.clip(control, self.control_min, self.control_max)

        # compute new state if dynamics were applied
        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)
""","""                raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")
        return control
"""),
(BM,"""                for action_name, action_value in action.items():
                    if action_name not in self.control_map:
                        raise KeyError(
                            f"action '{action_name}' not found in entity's control_map, "
                            f"please use one of: {self.control_map.keys()}"
                        )

                    control[self.control_map[action_name]] = action_value
""","""                for action_name in action:
                    try:
                        idx = self.control_map[action_name]
                    except KeyError as e:
                        raise KeyError(
                            f"action '{action_name}' not found in entity's control_map, "
                            f"please use one of: {list(self.control_map)}"
                        ) from e
                    control[idx] = action[action_name]
"""),
(BM,"""        if self.angle_wrap_centers is not None:
            needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))

            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers

            output_state = self.np.where(needs_wrap, wrapped_state, state)
        else:
            output_state = state

        return output_state
""","""        if self.angle_wrap_centers is None:
            return state
        centers = self.angle_wrap_centers
        lower = centers - np.pi
        wrapped_state = self.np.mod(state - lower, 2 * np.pi) + lower
        return self.np.where(self.np.isnan(centers), state, wrapped_state)
"""),
(BM,"""        next_state = self.np.clip(next_state, self.state_min, self.state_max)
""","""        next_state = self.np.minimum(self.np.maximum(next_state, self.state_min), self.state_max)
"""),
(BM,"""        lower_bounded_states = state <= self.state_min
        upper_bounded_states = state >= self.state_max

        lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)

        state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
        state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)

        return state_dot
""","""        at_min = self.np.less_equal(state, self.state_min)
        at_max = self.np.greater_equal(state, self.state_max)
        state_dot = self.np.where(at_min, self.np.maximum(state_dot, 0), state_dot)
        return self.np.where(at_max, self.np.minimum(state_dot, 0), state_dot)
"""),
(BM,"""        if isinstance(x, pint.Quantity):
            try:
                return float(x.to(unit).magnitude)
            except""","""        if isinstance(x, pint.Quantity):
            try:
                return float(x.m_as(unit))
            except"""),
]
B["bm2"]=[
(BM,"""        if self.integration_method == "RK45":

            t_eval = None
            if self.trajectory_samples > 0:
                t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]

            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)

            self.trajectory = sol.y.T
            self.trajectory_t = sol.t

            next_state = sol.y[:, -1]  # save last timestep of integration solution
            state_dot = self.compute_state_dot(step_size, next_state, control)
        elif""","""        if self.integration_method == "RK45":
            next_state = self._integrate_rk45(step_size, state, control)
        elif"""),
(BM,"""            next_state = sol[-1, :]  # save last timestep of integration solution
            state_dot = self.compute_state_dot(step_size, next_state, control)
""","""            next_state = sol[-1]  # save last timestep of integration solution
"""),
(BM,"""            state_dot = self.compute_state_dot(0, state, control)
            next_state = state + step_size * state_dot
            state_dot = self.compute_state_dot(step_size, next_state, control)
        else:
            raise ValueError(f"invalid integration method '{self.integration_method}'")

        return next_state, state_dot
""","""            next_state = state + step_size * self.compute_state_dot(0, state, control)
        else:
            raise ValueError(f"invalid integration method '{self.integration_method}'")

        state_dot = self.compute_state_dot(step_size, next_state, control)
        return next_state, state_dot

    def _integrate_rk45(self, step_size, state, control):
        if self.trajectory_samples > 0:
            t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
        else:
            t_eval = None

        def derivative(t, y):
            return self.compute_state_dot(t, y, control)

        sol = scipy.integrate.solve_ivp(derivative, (0, step_size), state, t_eval=t_eval)
        self.trajectory_t = sol.t
        self.trajectory = sol.y.transpose()
        return self.trajectory[-1].copy()
"""),
(BM,"""        state_dot = self._compute_state_dot(t, state, control)
        state_dot = self._clip_state_dot_direct(state_dot)
        state_dot = self._clip_state_dot_by_state_limits(state, state_dot)
        return state_dot
""","""        unlimited = self._compute_state_dot(t, state, control)
        return self._clip_state_dot_by_state_limits(state, self._clip_state_dot_direct(unlimited))
"""),
(BM,"""        state_dot = self.state_transition_system(state) + self.state_transition_input(state) @ control
        return state_dot
""","""        drift = self.state_transition_system(state)
        return drift + self.np.dot(self.state_transition_input(state), control)
"""),
(BM,"""        return self.A @ state
""","""        return self.np.matmul(self.A, state)
"""),
(BM,"""        return self._state.copy()
""","""        current = self._state
        return current.copy()
"""),
(BM,"""                control[self.control_map[action_name]] = action_value
""" if 0 else """            elif isinstance(action, np.ndarray):
                control = action.copy()
            elif jnp is not None and isinstance(action, jnp.ndarray):  # pylint: disable=used-before-assignment
                control = action.copy()
""","""            elif isinstance(action, np.ndarray) or (jnp is not None and isinstance(action, jnp.ndarray)):
                control = action.copy()
"""),
(BM,"""        return self.np.clip(state_dot, self.state_dot_min, self.state_dot_max)
""","""        bounded = self.np.maximum(state_dot, self.state_dot_min)
        return self.np.minimum(bounded, self.state_dot_max)
"""),
]
# ---- cwh
B["six"]=[
(SIX,"""        acc_limit_combined = np.zeros((3, ))
        vel_limit_combined = np.zeros((3, ))
        control_limit = np.zeros((6, ))
        for i in range(3):
            acc_limit_combined[i] = min(ang_acc_limit[i], inertia_wheel * acc_limit_wheel / inertia_matrix[i, i])
            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / inertia_matrix[i, i])
            control_limit[i] = thrust_control_limit
            control_limit[i + 3] = acc_limit_combined[i] * inertia_matrix[i, i]
""","""        inertia_diag = np.array([inertia_matrix[i, i] for i in range(3)])
        acc_limit_combined = np.minimum(ang_acc_limit, inertia_wheel * acc_limit_wheel / inertia_diag)
        vel_limit_combined = np.minimum(ang_vel_limit, inertia_wheel * vel_limit_wheel / inertia_diag)
        control_limit = np.concatenate((thrust_control_limit * np.ones(3), acc_limit_combined * inertia_diag))
"""),
(SIX,"""        control_min = -1 * control_limit
        control_max = control_limit
""","""        control_min, control_max = -control_limit, control_limit
"""),
(SIX,"""            state_min = np.array(
                [
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -ang_vel_limit[0],
                    -ang_vel_limit[1],
                    -ang_vel_limit[2]
                ]
            )
""","""            state_min = np.full(13, -np.inf)
            state_min[10:] = -ang_vel_limit
"""),
(SIX,"""            state_max = np.array(
                [
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    ang_vel_limit[0],
                    ang_vel_limit[1],
                    ang_vel_limit[2]
                ]
            )
""","""            state_max = np.concatenate((np.inf * np.ones(10), ang_vel_limit))
"""),
(SIX,"""        x, y, z, q1, q2, q3, q4, x_dot, y_dot, z_dot, wx, wy, wz = state

        # Compute translational derivatives
        pos_vel_state_vec = np.array([x, y, z, x_dot, y_dot, z_dot], dtype=np.float64)
        pos_vel_derivative = self.A @ pos_vel_state_vec
""","""        q1, q2, q3, q4 = state[3:7]
        wx, wy, wz = state[10:13]

        # Compute translational derivatives
        pos_vel_derivative = self.A @ np.concatenate((state[0:3], state[7:10]))
"""),
(SIX,"""        w_derivative[0] = 1 / self.inertia_matrix[0, 0] * ((self.inertia_matrix[1, 1] - self.inertia_matrix[2, 2]) * wy * wz)
        w_derivative[1] = 1 / self.inertia_matrix[1, 1] * ((self.inertia_matrix[2, 2] - self.inertia_matrix[0, 0]) * wx * wz)
        w_derivative[2] = 1 / self.inertia_matrix[2, 2] * ((self.inertia_matrix[0, 0] - self.inertia_matrix[1, 1]) * wx * wy)
""","""        ixx, iyy, izz = (self.inertia_matrix[i, i] for i in range(3))
        w_derivative[0] = (iyy - izz) / ixx * wy * wz
        w_derivative[1] = (izz - ixx) / iyy * wx * wz
        w_derivative[2] = (ixx - iyy) / izz * wx * wy
"""),
(SIX,"""            r1 = 1 / self.m * self.apply_quat(np.array([1, 0, 0]), quat)
            r2 = 1 / self.m * self.apply_quat(np.array([0, 1, 0]), quat)
            r3 = 1 / self.m * self.apply_quat(np.array([0, 0, 1]), quat)
            vel_derivative = np.array([[r1[0], r2[0], r3[0]], [r1[1], r2[1], r3[1]], [r1[2], r2[2], r3[2]]])
""","""            columns = [self.apply_quat(axis, quat) / self.m for axis in np.eye(3)]
            vel_derivative = np.array(columns).T
"""),
(SIX,"""        g = np.vstack(
            (
                np.zeros((7, 6)),
                np.hstack((vel_derivative, np.zeros(vel_derivative.shape))),
                np.hstack((np.zeros(w_derivative.shape), w_derivative))
            )
        )

        return g
""","""        g = np.zeros((13, 6))
        g[7:10, 0:3] = vel_derivative
        g[10:13, 3:6] = w_derivative
        return g
"""),
(SIX,"""        p = np.insert(x, 0, 0, axis=0)
        r = np.array([quat[3], quat[0], quat[1], quat[2]])
        r_p = np.array([quat[3], -quat[0], -quat[1], -quat[2]])
""","""        p = np.array([0, x[0], x[1], x[2]])
        r = np.roll(quat, 1)
        r_p = r * np.array([1, -1, -1, -1])
"""),
]
B["rot"]=[
(ROT,"""        ang_acc_limit = min(self.ang_acc_limit, self.inertia_wheel * self.acc_limit_wheel / self.inertia)
        ang_vel_limit = min(self.ang_vel_limit, self.inertia_wheel * self.vel_limit_wheel / self.inertia)

        control_default = np.zeros((3, ))
        control_min = np.array([-1, -1, -ang_acc_limit * self.inertia])
        control_max = np.array([1, 1, ang_acc_limit * self.inertia])
""","""        wheel_ratio = inertia_wheel / inertia
        ang_acc_limit = min(wheel_ratio * acc_limit_wheel, ang_acc_limit)
        ang_vel_limit = min(wheel_ratio * vel_limit_wheel, ang_vel_limit)

        control_default = np.zeros((3, ))
        control_max = np.array([1, 1, ang_acc_limit * self.inertia])
        control_min = -control_max
"""),
(ROT,"""        pos_vel_state_vec = self.np.array([x, y, x_dot, y_dot], dtype=np.float32)
        # Compute derivatives
        pos_vel_derivative = self.A @ pos_vel_state_vec

        # Form array of state derivatives
        state_derivative = self.np.array(
            [pos_vel_derivative[0], pos_vel_derivative[1], theta_dot, pos_vel_derivative[2], pos_vel_derivative[3], 0], dtype=np.float32
        )

        return state_derivative
""","""        x_dd, y_dd = (self.A @ self.np.array([x, y, x_dot, y_dot], dtype=np.float32))[2:]

        # Form array of state derivatives
        return self.np.array([x_dot, y_dot, theta_dot, x_dd, y_dd, 0], dtype=np.float32)
"""),
(ROT,"""        theta = state[2]

        g = self.np.array(
            [
                [0, 0, 0],
                [0, 0, 0],
                [0, 0, 0],
                [self.np.cos(theta) / self.m, -self.np.sin(theta) / self.m, 0],
                [self.np.sin(theta) / self.m, self.np.cos(theta) / self.m, 0],
                [0, 0, 1 / self.inertia],
            ]
        )
        return g
""","""        cos_theta, sin_theta = self.np.cos(state[2]), self.np.sin(state[2])
        inv_m = 1 / self.m
        zero = [0, 0, 0]
        rows = [zero] * 3
        rows.append([inv_m * cos_theta, -inv_m * sin_theta, 0])
        rows.append([inv_m * sin_theta, inv_m * cos_theta, 0])
        rows.append([0, 0, 1 / self.inertia])
        return self.np.array(rows)
"""),
(ROT,"""            eq = (self.velocity == other.velocity).all()
            eq = eq and (self.position == other.position).all()
            eq = eq and (self.quaternion == other.quaternion).all()
            eq = eq and (self.angular_velocity == other.angular_velocity).all()
            return eq
        return False
""","""            for attr in ("velocity", "position", "quaternion", "angular_velocity"):
                if not np.array_equal(getattr(self, attr), getattr(other, attr)):
                    return False
            return True
        return False
"""),
(PT,"""        return self._state[3:6].copy()
""","""        return np.array(self._state[3:6])
"""),
(PT,"""            dtype=np.float64
        )

        B = np.array([
            [0, 0, 0],
            [0, 0, 0],
            [0, 0, 0],
            [1 / m, 0, 0],
            [0, 1 / m, 0],
            [0, 0, 1 / m],
        ], dtype=np.float64)
""","""            dtype=np.float64
        )

        B = np.zeros((6, 3))
        for i in range(3):
            B[3 + i, i] = 1 / m
"""),
(SUN,"""        if isinstance(other, SunEntity):
            return True
        return False
""","""        return isinstance(other, SunEntity)
"""),
(SUN,"""        return np.array([self.n])
""","""        rate = self.n
        return np.array([rate])
"""),
(UT,"""        output = float(input_val) * np.ones(shape, dtype=dtype)
""","""        output = np.full(shape, float(input_val), dtype=dtype)
"""),
]
# ---- dubins / integrators
B["dub"]=[
(DUB,"""                self.v * np.cos(self.heading) * np.cos(self.gamma),
                self.v * np.sin(self.heading) * np.cos(self.gamma),
                -1 * self.v * np.sin(self.gamma),
            ],
            dtype=np.float32,
        )
        return velocity
""","""                np.cos(self.gamma) * np.cos(self.heading),
                np.cos(self.gamma) * np.sin(self.heading),
                -np.sin(self.gamma),
            ],
            dtype=np.float32,
        )
        return velocity * np.float32(self.v)
"""),
(DUB,"""        _, _, heading, v = state

        x_dot = v * np.cos(heading)
        y_dot = v * np.sin(heading)

        state_dot = np.array([x_dot, y_dot, 0, 0])

        return state_dot
""","""        heading, v = state[2], state[3]
        state_dot = np.zeros(4)
        state_dot[0] = np.cos(heading) * v
        state_dot[1] = np.sin(heading) * v
        return state_dot
"""),
(DUB,"""        g = np.array([[0, 0], [0, 0], [1, 0], [0, 1]])
        return g
""","""        return np.vstack((np.zeros((2, 2)), np.eye(2)))
"""),
(DUB,"""        x_dot = v * np.cos(heading) * np.cos(gamma)
        y_dot = v * np.sin(heading) * np.cos(gamma)
        z_dot = -1 * v * np.sin(gamma)
        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2
""","""        v_horizontal = v * np.cos(gamma)
        x_dot = v_horizontal * np.cos(heading)
        y_dot = v_horizontal * np.sin(heading)
        z_dot = -v * np.sin(gamma)
        heading_dot = self.g * np.tan(roll) / v
"""),
(DUB,"""        acc = self.state_dot[3]
        acc = acc * (self.velocity / self.v)  # acc * unit velocity
        return acc
""","""        return self.state_dot[3] / self.v * self.velocity
"""),
(DUB,"""        position = np.zeros((3, ))
        position[0:2] = self._state[0:2]
        return position
""","""        return np.array([self._state[0], self._state[1], 0], dtype=float)
"""),
(DUB,"""            eq = eq and self.roll == other.roll
            eq = eq and self.gamma == other.gamma
            eq = eq and self.v == other.v
            return eq
""","""            return eq and self.gamma == other.gamma and self.v == other.v and self.roll == other.roll
"""),
]
# ---- aerobench
B["llc"]=[
(LLC,"""        x_delta = f16_state.copy()
        x_delta[:len(self.xequil)] -= self.xequil
""","""        n_eq = len(self.xequil)
        x_delta = np.concatenate((f16_state[:n_eq] - self.xequil, f16_state[n_eq:]))
"""),
(LLC,"""        x_ctrl = np.array([x_delta[i] for i in [1, 7, 13, 2, 6, 8, 14, 15]], dtype=float)
""","""        x_ctrl = x_delta[[1, 7, 13, 2, 6, 8, 14, 15]]
"""),
(LLC,"""        u_deg[1:4] = np.dot(-self.K_lqr, x_ctrl)  # Full Control
""","""        u_deg[1:4] = -(self.K_lqr @ x_ctrl)  # Full Control
"""),
(LLC,"""        u_deg[0] = max(min(u_deg[0], ctrlLimits.ThrottleMax), ctrlLimits.ThrottleMin)

        # Limit elevator from -25 to 25 deg
        u_deg[1] = max(min(u_deg[1], ctrlLimits.ElevatorMaxDeg), ctrlLimits.ElevatorMinDeg)

        # Limit aileron from -21.5 to 21.5 deg
        u_deg[2] = max(min(u_deg[2], ctrlLimits.AileronMaxDeg), ctrlLimits.AileronMinDeg)

        # Limit rudder from -30 to 30 deg
        u_deg[3] = max(min(u_deg[3], ctrlLimits.RudderMaxDeg), ctrlLimits.RudderMinDeg)
""","""        lower = np.array([ctrlLimits.ThrottleMin, ctrlLimits.ElevatorMinDeg, ctrlLimits.AileronMinDeg, ctrlLimits.RudderMinDeg])
        upper = np.array([ctrlLimits.ThrottleMax, ctrlLimits.ElevatorMaxDeg, ctrlLimits.AileronMaxDeg, ctrlLimits.RudderMaxDeg])
        u_deg = np.clip(u_deg, lower, upper)
"""),
(LLC,"""        return [Nz - u_ref[0], ps - u_ref[1], Ny_r - u_ref[2]]
""","""        return [measured - ref for measured, ref in zip((Nz, ps, Ny_r), u_ref)]
"""),
(C16,"""    xd = np.zeros((x_f16.shape[0], ))
    xd[:len(xd_model)] = xd_model

    # integrators from low-level controller
    start = len(xd_model)
    end = start + llc.get_num_integrators()
    int_der = llc.get_integrator_derivatives(u_ref, nz, ps, ny_r)
    xd[start:end] = int_der
""","""    int_der = llc.get_integrator_derivatives(u_ref, nz, ps, ny_r)
    xd = np.concatenate((xd_model, int_der, np.zeros(x_f16.shape[0] - len(xd_model) - llc.get_num_integrators())))
"""),
(C16,"""    u_rad[0] = u_deg[0]  # throttle

    for i in range(1, 4):
        u_rad[i] = deg2rad(u_deg[i])

    u_rad[4:7] = u_ref[0:3]  # inner-loop commands are 4-7
""","""    u_rad[:4] = u_deg
    u_rad[1:4] = deg2rad(u_rad[1:4])
    u_rad[4:] = u_ref[:3]  # inner-loop commands are 4-7
"""),
]
B["util"]=[
(U,"""    if ele > 0:
        rv = int(floor(ele))
    else:
        rv = int(ceil(ele))

    return rv
""","""    return int(floor(ele)) if ele > 0 else int(ceil(ele))
"""),
(U,"""    if ele < 0:
        rv = -1
    elif ele == 0:
        rv = 0
    else:
        rv = 1

    return rv
""","""    return int(ele > 0) - int(ele < 0)
"""),
(U,"""            yd = self.der_func(self.t, self.y)

            self.t += self.tstep

            if self.t + self.time_tol >= self.tend:
                self.t = self.tend

            dt = self.t - self.tprev
            self.y += dt * yd

            if self.t == self.tend:
                self.status = 'finished'
""","""            next_t = self.t + self.tstep
            if next_t + self.time_tol >= self.tend:
                next_t = self.tend

            self.y += (next_t - self.t) * self.der_func(self.t, self.y)
            self.t = next_t

            if next_t >= self.tend:
                self.status = 'finished'
"""),
(U,"""            nz = results['Nz_list'][i]
            ps = results['ps_list'][i]
""","""            nz, ps = results['Nz_list'][i], results['ps_list'][i]
"""),
(U,"""        self.altitude = kwargs['altitude'] if 'altitude' in kwargs and kwargs['altitude'] is not None else None
        self.Nz = kwargs['Nz'] if 'Nz' in kwargs and kwargs['Nz'] is not None else None
        self.v = kwargs['v'] if 'v' in kwargs and kwargs['v'] is not None else None
""","""        self.altitude = kwargs.get('altitude')
        self.Nz = kwargs.get('Nz')
        self.v = kwargs.get('v')
"""),
(U,"""        for i in range(results['states'].size // num_state_vars):
            vt, alpha, beta, _phi, \\
                _theta, _psi, _p, _q, \\
                _r, _pos_n, _pos_e, alt, \\
                *_ = results['states'][i]
""","""        for i, state in enumerate(np.reshape(results['states'], (-1, num_state_vars))):
            vt, alpha, beta = state[0:3]
            alt = state[StateIndex.ALT]
"""),
]
B["sub"]=[
(SF,"""    xd = x.copy()
    vt = x[0]
    alpha = x[1] * rtod
    beta = x[2] * rtod
    phi = x[3]
    theta = x[4]
    psi = x[5]
    p = x[6]
    q = x[7]
    r = x[8]
    alt = x[11]
    power = x[12]
""","""    xd = x.copy()
    vt, alpha_rad, beta_rad, phi, theta, psi, p, q, r, _, _, alt, power = x
    alpha = rtod * alpha_rad
    beta = rtod * beta_rad
"""),
(SF,"""    sth = sin(theta)
    cth = cos(theta)
    sph = sin(phi)
    cph = cos(phi)
    spsi = sin(psi)
    cpsi = cos(psi)
""","""    (sth, cth), (sph, cph), (spsi, cpsi) = [(sin(angle), cos(angle)) for angle in (theta, phi, psi)]
"""),
(SF,"""    udot = r * v - q * w - g * sth + rm * (qs * cxt + t)
    vdot = p * w - r * u + gcth * sph + ay
    wdot = q * u - p * v + gcth * cph + az
    dum = (u * u + w * w)

    xd[0] = (u * udot + v * vdot + w * wdot) / vt
    xd[1] = (u * wdot - w * udot) / dum
    xd[2] = (vt * vdot - v * xd[0]) * cbta / dum
""","""    dum = u**2 + w**2
    vdot = ay + gcth * sph + p * w - r * u
    wdot = az + gcth * cph + q * u - p * v
    udot = rm * (qs * cxt + t) - g * sth + r * v - q * w

    vt_dot = (u * udot + v * vdot + w * wdot) / vt
    xd[0] = vt_dot
    xd[2] = cbta * (vt * vdot - v * vt_dot) / dum
    xd[1] = (u * wdot - w * udot) / dum
"""),
(L+"tgear.py","""    if thtl <= .77:
        tg = 64.94 * thtl
    else:
        tg = 217.38 * thtl - 117.38

    return tg
""","""    if thtl > .77:
        return 217.38 * thtl - 117.38
    return 64.94 * thtl
"""),
(L+"thrust.py","""    if i >= 5:
        i = 4
""","""    i = min(i, 4)
"""),
(L+"thrust.py","""    if m >= 5:
        m = 4
    elif m <= 0:
        m = 0
""","""    m = max(0, min(m, 4))
"""),
(L+"thrust.py","""    s = b[i, m] * cdh + b[i + 1, m] * dh
    t = b[i, m + 1] * cdh + b[i + 1, m + 1] * dh
    tmil = s + (t - s) * dm
""","""    def bilinear(table):
        low, high = (table[i, col] * cdh + table[i + 1, col] * dh for col in (m, m + 1))
        return low + (high - low) * dm

    tmil = bilinear(b)
"""),
(L+"thrust.py","""        s = a[i, m] * cdh + a[i + 1, m] * dh
        t = a[i, m + 1] * cdh + a[i + 1, m + 1] * dh
        tidl = s + (t - s) * dm
        thrst""","""        tidl = bilinear(a)
        thrst"""),
(L+"adc.py","""    if alt >= 35000:  # in stratosphere
        t = 390
    else:
        t = 519 * tfac  # 3 rankine per atmosphere (3 rankine per 1000 ft)
""","""    t = 390 if alt >= 35000 else 519 * tfac
"""),
(L+"adc.py","""    qbar = .5 * rho * vt * vt
""","""    qbar = rho * vt**2 / 2
"""),
(L+"dampp.py","""    d = np.zeros((9, ))

    for i in range(9):
        d[i] = a[k - 1, i] + abs(da) * (a[l - 1, i] - a[k - 1, i])

    return d
""","""    return a[k - 1] + abs(da) * (a[l - 1] - a[k - 1])
"""),
(L+"cx.py","""    if k <= -2:
        k = -1

    if k >= 9:
        k = 8
""","""    k = max(-1, min(8, k))
"""),
(L+"cl.py","""    if m == 0:
        m = 1

    if m >= 6:
        m = 5
""","""    m = min(m, 5) or 1
"""),
(L+"morellif16.py","""    alpha = max(-10 * pi / 180, min(45 * pi / 180, alpha))""","""    alpha = min(45 * pi / 180, max(-10 * pi / 180, alpha))"""),
(L+"morellif16.py","""    Cxq = b0 + b1 * alpha + b2 * alpha**2 + b3 * alpha**3 + b4 * alpha**4
""","""    Cxq = b0 + alpha * (b1 + alpha * (b2 + alpha * (b3 + alpha * b4)))
"""),
(L+"morellif16.py","""    # Debug
    if b0 + b1 * alpha + b2 * alpha**2 + b3 * alpha**3 + b4 * alpha**4 > np.finfo(np.double).max:
        print()
""",""),
(L+"conf16.py","""    if orient == 2:""","""    elif orient == 2:"""),
(L+"conf16.py","""    if orient == 3:""","""    elif orient == 3:"""),
(L+"conf16.py","""        x[3] = phi  # Phi
        x[4] = x[1] + radgam  # Theta
""","""        x[4] = radgam + x[1]
        x[3] = phi
"""),
(L+"clf16.py","""        u[0] = s[0]
        u[1] = s[1]
        u[2] = s[2]
        u[3] = s[3]
        x[1] = s[4]
""","""        u[0:4] = s[0:4]
        x[1] = s[4]
"""),
]
def sh(cmd, cwd=None, env=None):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,env=env); return r.returncode, r.stdout+r.stderr
if __name__=="__main__":
    names=sys.argv[1].split(",") if len(sys.argv)>1 else list(B)
    props=sys.argv[2].split(",") if len(sys.argv)>2 else ["C%02d"%i for i in range(1,29)]
    for n in names:
        d="/tmp/rf/"+n; sh("rm -rf "+d); sh("cp -a /repo "+d)
        ok=True
        for f,o,nw in B[n]:
            p=d+"/"+f; s=open(p).read()
            if s.count(o)<1: print(n,"EDIT",s.count(o),f,repr(o[:70])); ok=False; continue
            open(p,"w").write(s.replace(o,nw,1))
        env=dict(os.environ,PYTHONPATH=d,JAX_PLATFORMS="cpu",PYTHONDONTWRITEBYTECODE="1")
        _,o=sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --continue-on-collection-errors",d,env)
        print(n,"tests:",o.strip().splitlines()[-1],flush=True)
        for p in props:
            t=time.time()
            env=dict(os.environ,VF_REPO=d,PYTHONPYCACHEPREFIX="/tmp/rf/pyc")
            rc,o=sh("./check.py %s --tier quick"%p,"/verif",env)
            und=[l for l in o.splitlines() if "UNDECIDED" in l]
            print(" ",n,p,"rc",rc,"%.0fs"%(time.time()-t),"undecided",len(und),flush=True)
            if rc or und: print("     ","\n      ".join([l for l in o.splitlines() if "VIOLATION" in l or "UNDECIDED" in l][:8]))
