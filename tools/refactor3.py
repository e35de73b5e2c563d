# behaviour-preserving refactorings, third set
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
P = "safe_autonomy_dynamics/"
A = P + "external/aerobench/"
L = A + "lowlevel/"
BM, SIX, ROT, PT, DUB, INT, SUN, UT = P + "base_models.py", P + "cwh/sixdof_model.py", P + "cwh/rotational_model.py", P + "cwh/point_model.py", P + "dubins.py", P + "integrators.py", P + "cwh/sun_model.py", P + "utils.py"
B = {}
B["wrap1"] = [(BM, '''        if self.angle_wrap_centers is not None:
            needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))

            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers

            output_state = self.np.where(needs_wrap, wrapped_state, state)
        else:
            output_state = state

        return output_state
''', '''        if self.angle_wrap_centers is None:
            return state

        lower = self.angle_wrap_centers - np.pi
        turns = self.np.floor((state - lower) / (2 * np.pi))
        return self.np.where(self.np.isnan(self.angle_wrap_centers), state, state - 2 * np.pi * turns)
'''),
               (BM, '''        lower_bounded_states = state <= self.state_min
        upper_bounded_states = state >= self.state_max

        lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)

        state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
        state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)

        return state_dot
''', '''        at_min, at_max = state <= self.state_min, state >= self.state_max
        rising = self.np.where(at_min, self.np.maximum(state_dot, 0), state_dot)
        return self.np.where(at_max, self.np.minimum(rising, 0), rising)
''')]
B["step1"] = [(BM, '''        self.integration_method = integration_method
        self.state_dot_min''', '''        self.integration_method = integration_method
        self._integrators = {"RK45": self._integrate_rk45, "RK45_JAX": self._integrate_jax, "Euler": self._integrate_euler}
        self.state_dot_min'''), (BM, '''
        if self.integration_method == "RK45":

            t_eval = None
            if self.trajectory_samples > 0:
                t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]

            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)

            self.trajectory = sol.y.T
            self.trajectory_t = sol.t

            next_state = sol.y[:, -1]  # save last timestep of integration solution
            state_dot = self.compute_state_dot(step_size, next_state, control)
        elif self.integration_method == "RK45_JAX":
            if not self.use_jax:
                raise ValueError("use_jax must be set to True if using RK45_JAX")

            assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with rk45 jax integration"

            sol = odeint(  # pylint: disable=used-before-assignment
                self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
            )
            next_state = sol[-1, :]  # save last timestep of integration solution
            state_dot = self.compute_state_dot(step_size, next_state, control)
        elif self.integration_method == "Euler":
            assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
            state_dot = self.compute_state_dot(0, state, control)
            next_state = state + step_size * state_dot
            state_dot = self.compute_state_dot(step_size, next_state, control)
        else:
            raise ValueError(f"invalid integration method '{self.integration_method}'")

        return next_state, state_dot
''', '''        integrate = self._integrators.get(self.integration_method)
        if integrate is None:
            raise ValueError(f"invalid integration method '{self.integration_method}'")
        next_state = integrate(step_size, state, control)
        return next_state, self.compute_state_dot(step_size, next_state, control)

    def _integrate_rk45(self, step_size, state, control):
        options = {}
        if self.trajectory_samples > 0:
            options["t_eval"] = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]

        def derivative(t, y):
            return self.compute_state_dot(t, y, control)

        sol = scipy.integrate.solve_ivp(derivative, (0, step_size), state, **options)
        self.trajectory, self.trajectory_t = sol.y.T, sol.t
        return sol.y[:, -1]

    def _integrate_jax(self, step_size, state, control):
        if not self.use_jax:
            raise ValueError("use_jax must be set to True if using RK45_JAX")
        assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with rk45 jax integration"
        sol = odeint(self.compute_state_dot_jax, state, jnp.array([0., step_size]), control)
        return sol[1]

    def _integrate_euler(self, step_size, state, control):
        assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
        return state + self.compute_state_dot(0, state, control) * step_size
''')]
B["step2"] = [(BM, '''        next_state, state_dot = self._step(step_size, state, control)
        next_state = self.np.clip(next_state, self.state_min, self.state_max)
        next_state = self._wrap_angles(next_state)
        return next_state, state_dot
''', '''        raw_state, state_dot = self._step(step_size, state, control)
        return self._constrain(raw_state), state_dot

    def _constrain(self, state):
        """apply state limits, then angle wrapping"""
        limited = self.np.minimum(self.np.maximum(state, self.state_min), self.state_max)
        return self._wrap_angles(limited)
'''), (BM, '''        if action is None:
            control = self.control_default.copy()
        else:
            if isinstance(action, dict):
                assert self.control_map is not None, "Cannot use dict-type action without a control_map " \\
                                                     "(see BaseEntity __init__())"
                control = self.control_default.copy()
                for action_name, action_value in action.items():
                    if action_name not in self.control_map:
                        raise KeyError(
                            f"action '{action_name}' not found in entity's control_map, "
                            f"please use one of: {self.control_map.keys()}"
                        )

                    control[self.control_map[action_name]] = action_value
            elif isinstance(action, list):
                control = np.array(action, dtype=np.float32)
            elif isinstance(action, np.ndarray):
                control = action.copy()
            elif jnp is not None and isinstance(action, jnp.ndarray):  # pylint: disable=used-before-assignment
                control = action.copy()
            else:
                raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")

        # enforce control bounds
        if (np.any(control < self.control_min) or np.any(control > self.control_max)):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = np.clip(control, self.control_min, self.control_max)

        # compute new state if dynamics were applied
        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)
''', '''        requested = self._requested_control(action)
        control = np.clip(requested, self.control_min, self.control_max)
        if np.any(control != requested):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")

        next_state, state_dot = self.dynamics.step(step_size, self.state, control)
        self.state = next_state
        self.state_dot = state_dot

    def _requested_control(self, action):
        if action is None:
            return np.copy(self.control_default)
        if isinstance(action, dict):
            return self._control_from_names(action)
        if isinstance(action, list):
            return np.array(action, dtype=np.float32)
        array_types = (np.ndarray, ) if jnp is None else (np.ndarray, jnp.ndarray)
        if isinstance(action, array_types):
            return action.copy()
        raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")

    def _control_from_names(self, action):
        assert self.control_map is not None, "Cannot use dict-type action without a control_map (see BaseEntity __init__())"
        unknown = [name for name in action if name not in self.control_map]
        if unknown:
            raise KeyError(f"action '{unknown[0]}' not found in entity's control_map, please use one of: {self.control_map.keys()}")
        control = self.control_default.copy()
        for name in action:
            control[self.control_map[name]] = action[name]
        return control
''')]
B["pre1"] = [(BM, '''        self.angle_wrap_centers = angle_wrap_centers
        self.use_jax = use_jax
''', '''        self.angle_wrap_centers = angle_wrap_centers
        self._wrapped = None if angle_wrap_centers is None else ~np.isnan(angle_wrap_centers)
        self.use_jax = use_jax
'''), (BM, '''        if self.angle_wrap_centers is not None:
            needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))

            wrapped''', '''        if self._wrapped is not None:
            needs_wrap = self._wrapped

            wrapped'''), (BM, '''        state_dot = self._compute_state_dot(t, state, control)
        state_dot = self._clip_state_dot_direct(state_dot)
        state_dot = self._clip_state_dot_by_state_limits(state, state_dot)
        return state_dot
''', '''        lower = self.np.where(state <= self.state_min, self.np.maximum(self.state_dot_min, 0), self.state_dot_min)
        upper = self.np.where(state >= self.state_max, self.np.minimum(self.state_dot_max, 0), self.state_dot_max)
        return self.np.clip(self._compute_state_dot(t, state, control), lower, upper)
'''), (BM, '''        self.A = self.np.copy(A)
        self.B = self.np.copy(B)
''', '''        self.A, self.B = (self.np.array(matrix) for matrix in (A, B))
'''), (BM, '''        state_dot = self.state_transition_system(state) + self.state_transition_input(state) @ control
        return state_dot
''', '''        drift = self.state_transition_system(state)
        effect = self.np.matmul(self.state_transition_input(state), control)
        return self.np.add(drift, effect)
''')]
B["six1"] = [(SIX, '''        p = np.insert(x, 0, 0, axis=0)
        r = np.array([quat[3], quat[0], quat[1], quat[2]])
        r_p = np.array([quat[3], -quat[0], -quat[1], -quat[2]])
        rotated_x = self.hamilton_product(self.hamilton_product(r, p), r_p)[1:]
        return rotated_x
''', '''        p = np.concatenate(([0.0], x))
        r = np.roll(quat, 1)
        conjugate = r * np.array([1, -1, -1, -1])
        return self.hamilton_product(self.hamilton_product(r, p), conjugate)[1:]
'''), (SIX, '''        return np.array(
            [
                r[0] * q[0] - r[1] * q[1] - r[2] * q[2] - r[3] * q[3],
                r[0] * q[1] + r[1] * q[0] + r[2] * q[3] - r[3] * q[2],
                r[0] * q[2] - r[1] * q[3] + r[2] * q[0] + r[3] * q[1],
                r[0] * q[3] + r[1] * q[2] - r[2] * q[1] + r[3] * q[0]
            ]
        )''', '''        scalar = r[0] * q[0] - np.dot(r[1:], q[1:])
        vector = r[0] * q[1:] + q[0] * r[1:] + np.cross(r[1:], q[1:])
        return np.concatenate(([scalar], vector))'''), (SIX, '''        w_derivative = np.array(
            [[1 / self.inertia_matrix[0, 0], 0, 0], [0, 1 / self.inertia_matrix[1, 1], 0], [0, 0, 1 / self.inertia_matrix[2, 2]]]
        )
''', '''        w_derivative = np.diag(1 / np.diag(self.inertia_matrix))
'''), (SIX, '''            r1 = 1 / self.m * self.apply_quat(np.array([1, 0, 0]), quat)
            r2 = 1 / self.m * self.apply_quat(np.array([0, 1, 0]), quat)
            r3 = 1 / self.m * self.apply_quat(np.array([0, 0, 1]), quat)
            vel_derivative = np.array([[r1[0], r2[0], r3[0]], [r1[1], r2[1], r3[1]], [r1[2], r2[2], r3[2]]])
''', '''            vel_derivative = np.stack([self.apply_quat(axis, quat) for axis in np.eye(3)], axis=1) / self.m
'''), (SIX, '''        g = np.vstack(
            (
                np.zeros((7, 6)),
                np.hstack((vel_derivative, np.zeros(vel_derivative.shape))),
                np.hstack((np.zeros(w_derivative.shape), w_derivative))
            )
        )

        return g
''', '''        g = np.zeros((13, 6))
        g[7:10, :3] = vel_derivative
        g[10:13, 3:] = w_derivative
        return g
'''), (SIX, '''        w_derivative = np.zeros((3, ))
        q_deriv''', '''        inertia = np.diag(self.inertia_matrix)
        w_derivative = np.array([(inertia[1] - inertia[2]) * wy * wz, (inertia[2] - inertia[0]) * wx * wz, (inertia[0] - inertia[1]) * wx * wy]) / inertia
        q_deriv'''), (SIX, '''        w_derivative[0] = 1 / self.inertia_matrix[0, 0] * ((self.inertia_matrix[1, 1] - self.inertia_matrix[2, 2]) * wy * wz)
        w_derivative[1] = 1 / self.inertia_matrix[1, 1] * ((self.inertia_matrix[2, 2] - self.inertia_matrix[0, 0]) * wx * wz)
        w_derivative[2] = 1 / self.inertia_matrix[2, 2] * ((self.inertia_matrix[0, 0] - self.inertia_matrix[1, 1]) * wx * wy)
''', '')]
B["six2"] = [(SIX, '''        x, y, z, q1, q2, q3, q4, x_dot, y_dot, z_dot, wx, wy, wz = state

        # Compute translational derivatives
        pos_vel_state_vec = np.array([x, y, z, x_dot, y_dot, z_dot], dtype=np.float64)
        pos_vel_derivative = self.A @ pos_vel_state_vec
''', '''        q1, q2, q3, q4 = state[3:7]
        wx, wy, wz = state[10:]

        # Compute translational derivatives
        pos_vel_derivative = self.A @ np.concatenate((state[:3], state[7:10]))
'''), (SIX, '''        state_derivative = np.array(
            [
                pos_vel_derivative[0],
                pos_vel_derivative[1],
                pos_vel_derivative[2],
                q_derivative[0],
                q_derivative[1],
                q_derivative[2],
                q_derivative[3],
                pos_vel_derivative[3],
                pos_vel_derivative[4],
                pos_vel_derivative[5],
                w_derivative[0],
                w_derivative[1],
                w_derivative[2]
            ],
            dtype=np.float32
        )
        return state_derivative
''', '''        parts = (pos_vel_derivative[:3], q_derivative, pos_vel_derivative[3:], w_derivative)
        return np.concatenate(parts).astype(np.float32)
'''), (SIX, '''        if state_min is None:
            state_min = np.array(
                [
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -np.inf,
                    -ang_vel_limit[0],
                    -ang_vel_limit[1],
                    -ang_vel_limit[2]
                ]
            )

        if state_max is None:
            state_max = np.array(
                [
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    np.inf,
                    ang_vel_limit[0],
                    ang_vel_limit[1],
                    ang_vel_limit[2]
                ]
            )
''', '''        limits = np.concatenate((np.full(10, np.inf), ang_vel_limit))
        state_min = -limits if state_min is None else state_min
        state_max = limits if state_max is None else state_max
'''), (SIX, '''        return np.array([self.x_dot, self.y_dot, self.z_dot])
''', '''        return self._state[7:10].copy()
''')]
if __name__ == "__main__":
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor2.py")).read()
    exec(src[src.index("def sh("):])
