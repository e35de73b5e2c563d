# behaviour-preserving refactorings, second set
import os,subprocess,sys,json,time
P="safe_autonomy_dynamics/"; A=P+"external/aerobench/"; L=A+"lowlevel/"
BM=P+"base_models.py"; SIX=P+"cwh/sixdof_model.py"; ROT=P+"cwh/rotational_model.py"; PT=P+"cwh/point_model.py"; DUB=P+"dubins.py"; INT=P+"integrators.py"; SUN=P+"cwh/sun_model.py"; UT=P+"utils.py"
U=A+"util.py"; C16=A+"controlled_f16.py"; LLC=L+"low_level_controller.py"; SF=L+"subf16_model.py"
B={}
B={'bm3': [('safe_autonomy_dynamics/base_models.py',
          '    def fn(x: Union[float, pint.Quantity]) -> float:\n'
          '        if isinstance(x, pint.Quantity):\n'
          '            try:\n'
          '                return float(x.to(unit).magnitude)\n'
          '            except pint.errors.DimensionalityError as e:\n'
          '                # Convert to an error type handled by Pydantic so that conversion issues show up as a Pydantic\n'
          '                # validation error for easier debugging rather than an error originating here\n'
          '                raise ValueError from e\n'
          '        return float(x)\n'
          '\n'
          '    return fn\n',
          '    def magnitude(x):\n'
          '        try:\n'
          '            return x.to(unit).magnitude\n'
          '        except pint.errors.DimensionalityError as e:\n'
          '            raise ValueError from e\n'
          '\n'
          '    def fn(x: Union[float, pint.Quantity]) -> float:\n'
          '        return float(magnitude(x) if isinstance(x, pint.Quantity) else x)\n'
          '\n'
          '    return fn\n'),
         ('safe_autonomy_dynamics/base_models.py',
          '        self.velocity: pint.Unit = self.length / self.time\n'
          '        self.angular_velocity: pint.Unit = self.angle / self.time\n'
          '\n'
          '        self.acceleration: pint.Unit = self.length / (self.time**2)\n'
          '        self.angular_acceleration: pint.Unit = self.angle / (self.time**2)\n',
          '        self.velocity: pint.Unit = self.length / self.time\n'
          '        self.acceleration: pint.Unit = self.velocity / self.time\n'
          '\n'
          '        self.angular_velocity: pint.Unit = self.angle / self.time\n'
          '        self.angular_acceleration: pint.Unit = self.angular_velocity / self.time\n'),
         ('safe_autonomy_dynamics/base_models.py',
          '        if action is None:\n'
          '            control = self.control_default.copy()\n'
          '        else:\n'
          '            if isinstance(action, dict):\n'
          '                assert self.control_map is not None, "Cannot use dict-type action without a control_map " \\\n'
          '                                                     "(see BaseEntity __init__())"\n'
          '                control = self.control_default.copy()\n'
          '                for action_name, action_value in action.items():\n'
          '                    if action_name not in self.control_map:\n'
          '                        raise KeyError(\n'
          '                            f"action \'{action_name}\' not found in entity\'s control_map, "\n'
          '                            f"please use one of: {self.control_map.keys()}"\n'
          '                        )\n'
          '\n'
          '                    control[self.control_map[action_name]] = action_value\n'
          '            elif isinstance(action, list):\n'
          '                control = np.array(action, dtype=np.float32)\n'
          '            elif isinstance(action, np.ndarray):\n'
          '                control = action.copy()\n'
          '            elif jnp is not None and isinstance(action, jnp.ndarray):  # pylint: disable=used-before-assignment\n'
          '                control = action.copy()\n'
          '            else:\n'
          '                raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")\n'
          '\n'
          '        # enforce control bounds\n'
          '        if (np.any(control < self.control_min) or np.any(control > self.control_max)):\n'
          '            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")\n'
          '        control = np.clip(control, self.control_min, self.control_max)\n'
          '\n'
          '        # compute new state if dynamics were applied\n'
          '        self.state, self.state_dot = self.dynamics.step(step_size, self.state, control)\n',
          '        control = self._clip_control(self._to_control(action))\n'
          '        self.state, self.state_dot = self.dynamics.step(step_size, state=self.state, control=control)\n'
          '\n'
          '    def _clip_control(self, control):\n'
          '        clipped = np.clip(control, self.control_min, self.control_max)\n'
          '        if np.any(clipped != control):\n'
          '            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")\n'
          '        return clipped\n'
          '\n'
          '    def _to_control(self, action):\n'
          '        array_types = (np.ndarray, ) if jnp is None else (np.ndarray, jnp.ndarray)  # pylint: disable=used-before-assignment\n'
          '        if isinstance(action, array_types):\n'
          '            return action.copy()\n'
          '        if isinstance(action, list):\n'
          '            return np.array(action, dtype=np.float32)\n'
          '        if action is not None and not isinstance(action, dict):\n'
          '            raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")\n'
          '        control = self.control_default.copy()\n'
          '        if action is not None:\n'
          '            assert self.control_map is not None, "Cannot use dict-type action without a control_map"\n'
          '            unknown = [name for name in action if name not in self.control_map]\n'
          '            if unknown:\n'
          '                raise KeyError(f"action \'{unknown[0]}\' not found in entity\'s control_map")\n'
          '            for name, value in action.items():\n'
          '                control[self.control_map[name]] = value\n'
          '        return control\n'),
         ('safe_autonomy_dynamics/base_models.py',
          '        return self._state.copy()\n\n    @state.setter\n    def state(self, value: np.ndarray):\n        self._state = value.copy()\n',
          '        current = self._state\n'
          '        return current.copy()\n'
          '\n'
          '    @state.setter\n'
          '    def state(self, value: np.ndarray):\n'
          '        new_state = value.copy()\n'
          '        self._state = new_state\n')],
 'du': [('safe_autonomy_dynamics/dubins.py',
         '        velocity = np.array(\n'
         '            [\n'
         '                self.v * np.cos(self.heading) * np.cos(self.gamma),\n'
         '                self.v * np.sin(self.heading) * np.cos(self.gamma),\n'
         '                -1 * self.v * np.sin(self.gamma),\n'
         '            ],\n'
         '            dtype=np.float32,\n'
         '        )\n'
         '        return velocity\n',
         '        speed, psi, gamma = self.v, self.heading, self.gamma\n'
         '        horizontal = speed * np.cos(gamma)\n'
         '        components = (horizontal * np.cos(psi), horizontal * np.sin(psi), -(speed * np.sin(gamma)))\n'
         '        return np.array(components, dtype=np.float32)\n'),
        ('safe_autonomy_dynamics/dubins.py',
         '        position = np.zeros((3, ))\n        position[0:2] = self._state[0:2]\n        return position\n',
         '        return np.append(self._state[:2], 0).astype(np.float64)\n'),
        ('safe_autonomy_dynamics/dubins.py',
         '        _, _, heading, v = state\n'
         '\n'
         '        x_dot = v * np.cos(heading)\n'
         '        y_dot = v * np.sin(heading)\n'
         '\n'
         '        state_dot = np.array([x_dot, y_dot, 0, 0])\n'
         '\n'
         '        return state_dot\n',
         '        heading, v = state[2:]\n        state_dot = np.zeros(4)\n        state_dot[:2] = v * np.array([np.cos(heading), np.sin(heading)])\n        return state_dot\n'),
        ('safe_autonomy_dynamics/dubins.py', '        g = np.array([[0, 0], [0, 0], [1, 0], [0, 1]])\n        return g\n', '        return np.vstack([np.zeros((2, 2)), np.identity(2)])\n'),
        ('safe_autonomy_dynamics/dubins.py',
         '        acc = self.state_dot[3]\n        acc = acc * (self.velocity / self.v)  # acc * unit velocity\n        return acc\n\n\nclass Dubins2dDyn',
         '        unit_velocity = self.velocity / self.v\n        return unit_velocity * self.state_dot[3]\n\n\nclass Dubins2dDyn')],
 'ia': [('safe_autonomy_dynamics/integrators.py',
         "def generate_dynamics_matrices(m: float, damping: float = 0, mode: str = '1d') -> Tuple[np.ndarray, np.ndarray]:\n"
         '    """Generates A and B Matrices for linearized dynamics of dx/dt = Ax + Bu\n'
         '\n'
         '    Parameters\n'
         '    ----------\n'
         '    m : float\n'
         '        mass of object\n'
         '    damping : float, optional\n'
         '        linear velocity damper. Default is zero\n'
         '    mode : str, optional\n'
         "        dimensionality of dynamics matrices. '1d', '2d', or '3d', by default '1d'\n"
         '\n'
         '    Returns\n'
         '    -------\n'
         '    np.ndarray\n'
         '        A dynamics matrix\n'
         '    np.ndarray\n'
         '        B dynamics matrix\n'
         '    """\n'
         '    assert mode in [\'1d\', \'2d\', \'3d\'], "mode must be on of [\'1d\', \'2d\', \'3d\']"\n'
         "    if mode == '1d':\n"
         '        A = np.array([\n'
         '            [0, 1],\n'
         '            [0, -damping],\n'
         '        ], dtype=np.float64)\n'
         '\n'
         '        B = np.array([\n'
         '            [0],\n'
         '            [1 / m],\n'
         '        ], dtype=np.float64)\n'
         "    elif mode == '2d':\n"
         '        A = np.array([\n'
         '            [0, 0, 1, 0],\n'
         '            [0, 0, 0, 1],\n'
         '            [0, 0, -damping, 0],\n'
         '            [0, 0, 0, -damping],\n'
         '        ], dtype=np.float64)\n'
         '\n'
         '        B = np.array([\n'
         '            [0, 0],\n'
         '            [0, 0],\n'
         '            [1 / m, 0],\n'
         '            [0, 1 / m],\n'
         '        ], dtype=np.float64)\n'
         '    else:\n'
         '        A = np.array(\n'
         '            [\n'
         '                [0, 0, 0, 1, 0, 0],\n'
         '                [0, 0, 0, 0, 1, 0],\n'
         '                [0, 0, 0, 0, 0, 1],\n'
         '                [0, 0, 0, -damping, 0, 0],\n'
         '                [0, 0, 0, 0, -damping, 0],\n'
         '                [0, 0, 0, 0, 0, -damping],\n'
         '            ],\n'
         '            dtype=np.float64\n'
         '        )\n'
         '\n'
         '        B = np.array([\n'
         '            [0, 0, 0],\n'
         '            [0, 0, 0],\n'
         '            [0, 0, 0],\n'
         '            [1 / m, 0, 0],\n'
         '            [0, 1 / m, 0],\n'
         '            [0, 0, 1 / m],\n'
         '        ], dtype=np.float64)\n'
         '\n'
         '    return A, B\n',
         "def generate_dynamics_matrices(m: float, damping: float = 0, mode: str = '1d') -> Tuple[np.ndarray, np.ndarray]:\n"
         '    """Generates A and B Matrices for linearized dynamics of dx/dt = Ax + Bu"""\n'
         '    assert mode in [\'1d\', \'2d\', \'3d\'], "mode must be on of [\'1d\', \'2d\', \'3d\']"\n'
         '    dim = int(mode[0])\n'
         '    eye, zero = np.eye(dim), np.zeros((dim, dim))\n'
         '    A = np.block([[zero, eye], [zero, -damping * eye]])\n'
         '    B = np.vstack((zero, eye / m))\n'
         '    return A, B\n'),
        ('safe_autonomy_dynamics/integrators.py',
         '        state = np.array([self.config.x, self.config.y] + [self.config.xdot, self.config.ydot], dtype=np.float32)\n\n        return state\n',
         '        names = ("x", "y", "xdot", "ydot")\n        return np.array([getattr(self.config, name) for name in names], dtype=np.float32)\n'),
        ('safe_autonomy_dynamics/integrators.py',
         '        return self._state[2:4].copy()\n',
         '        return self._velocity_part().copy()\n\n    def _velocity_part(self):\n        return self._state[-2:]\n'),
        ('safe_autonomy_dynamics/integrators.py', '        return self._state[3:6].copy()\n', '        half = len(self._state) // 2\n        return np.array(self._state[half:])\n'),
        ('safe_autonomy_dynamics/integrators.py',
         '        if isinstance(other, BaseIntegrator):\n'
         '            eq = (self.velocity == other.velocity).all()\n'
         '            eq = eq and (self.position == other.position).all()\n'
         '            return eq\n'
         '        return False\n'
         '\n'
         '    @property\n'
         '    @abc',
         '        if not isinstance(other, BaseIntegrator):\n'
         '            return False\n'
         '        return (self.velocity == other.velocity).all() and (self.position == other.position).all()\n'
         '\n'
         '    @property\n'
         '    @abc'),
        ('safe_autonomy_dynamics/cwh/point_model.py',
         "def generate_cwh_matrices(m: float, n: float, mode: str = '2d') -> Tuple[np.ndarray, np.ndarray]:\n"
         '    """Generates A and B Matrices from Clohessy-Wiltshire linearized dynamics of dx/dt = Ax + Bu\n'
         '\n'
         '    Parameters\n'
         '    ----------\n'
         '    m : float\n'
         '        mass in kg of spacecraft\n'
         '    n : float\n'
         "        orbital mean motion in rad/s of current Hill's reference frame\n"
         '    mode : str, optional\n'
         "        dimensionality of dynamics matrices. '2d' or '3d', by default '2d'\n"
         '\n'
         '    Returns\n'
         '    -------\n'
         '    np.ndarray\n'
         '        A dynamics matrix\n'
         '    np.ndarray\n'
         '        B dynamics matrix\n'
         '    """\n'
         '    assert mode in [\'2d\', \'3d\'], "mode must be on of [\'2d\', \'3d\']"\n'
         "    if mode == '2d':\n"
         '        A = np.array([\n'
         '            [0, 0, 1, 0],\n'
         '            [0, 0, 0, 1],\n'
         '            [3 * n**2, 0, 0, 2 * n],\n'
         '            [0, 0, -2 * n, 0],\n'
         '        ], dtype=np.float64)\n'
         '\n'
         '        B = np.array([\n'
         '            [0, 0],\n'
         '            [0, 0],\n'
         '            [1 / m, 0],\n'
         '            [0, 1 / m],\n'
         '        ], dtype=np.float64)\n'
         '    else:\n'
         '        A = np.array(\n'
         '            [\n'
         '                [0, 0, 0, 1, 0, 0],\n'
         '                [0, 0, 0, 0, 1, 0],\n'
         '                [0, 0, 0, 0, 0, 1],\n'
         '                [3 * n**2, 0, 0, 0, 2 * n, 0],\n'
         '                [0, 0, 0, -2 * n, 0, 0],\n'
         '                [0, 0, -n**2, 0, 0, 0],\n'
         '            ],\n'
         '            dtype=np.float64\n'
         '        )\n'
         '\n'
         '        B = np.array([\n'
         '            [0, 0, 0],\n'
         '            [0, 0, 0],\n'
         '            [0, 0, 0],\n'
         '            [1 / m, 0, 0],\n'
         '            [0, 1 / m, 0],\n'
         '            [0, 0, 1 / m],\n'
         '        ], dtype=np.float64)\n'
         '\n'
         '    return A, B\n',
         "def generate_cwh_matrices(m: float, n: float, mode: str = '2d') -> Tuple[np.ndarray, np.ndarray]:\n"
         '    """Generates A and B Matrices from Clohessy-Wiltshire linearized dynamics of dx/dt = Ax + Bu"""\n'
         '    assert mode in [\'2d\', \'3d\'], "mode must be on of [\'2d\', \'3d\']"\n'
         '    A = np.zeros((6, 6), dtype=np.float64)\n'
         '    A[0:3, 3:6] = np.eye(3)\n'
         '    A[3, 0] = 3 * n**2\n'
         '    A[3, 4] = 2 * n\n'
         '    A[4, 3] = -A[3, 4]\n'
         '    A[5, 2] = -n**2\n'
         '    B = np.zeros((6, 3), dtype=np.float64)\n'
         '    B[3:, :] = np.diag([1 / m] * 3)\n'
         "    if mode == '2d':\n"
         '        keep = [0, 1, 3, 4]\n'
         '        A = A[np.ix_(keep, keep)]\n'
         '        B = B[keep][:, :2]\n'
         '    return A, B\n'),
        ('safe_autonomy_dynamics/cwh/point_model.py',
         '        other_entity = self._sim.sim_entities[entity_name]\n        return other_entity.position - self.position\n',
         '        return self._difference(entity_name, "position")\n'
         '\n'
         '    def _difference(self, entity_name, attribute):\n'
         '        other = self._sim.sim_entities[entity_name]\n'
         '        return np.subtract(getattr(other, attribute), getattr(self, attribute))\n'),
        ('safe_autonomy_dynamics/cwh/point_model.py',
         '        other_entity = self._sim.sim_entities[entity_name]\n        return other_entity.velocity - self.velocity\n',
         '        return self._difference(entity_name, "velocity")\n'),
        ('safe_autonomy_dynamics/cwh/point_model.py',
         '        """get 3d position vector"""\n        return self._state[0:3].copy()\n',
         '        """get 3d position vector"""\n        return np.array([self.x, self.y, self.z], dtype=self._state.dtype)\n')],
 'sb': [('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        q_derivative = np.zeros((4, ))\n'
         '        w_derivative = np.zeros((3, ))\n'
         '        q_derivative[0] = 0.5 * (q4 * wx - q3 * wy + q2 * wz)\n'
         '        q_derivative[1] = 0.5 * (q3 * wx + q4 * wy - q1 * wz)\n'
         '        q_derivative[2] = 0.5 * (-q2 * wx + q1 * wy + q4 * wz)\n'
         '        q_derivative[3] = 0.5 * (-q1 * wx - q2 * wy - q3 * wz)\n'
         '        w_derivative[0] = 1 / self.inertia_matrix[0, 0] * ((self.inertia_matrix[1, 1] - self.inertia_matrix[2, 2]) * wy * wz)\n'
         '        w_derivative[1] = 1 / self.inertia_matrix[1, 1] * ((self.inertia_matrix[2, 2] - self.inertia_matrix[0, 0]) * wx * wz)\n'
         '        w_derivative[2] = 1 / self.inertia_matrix[2, 2] * ((self.inertia_matrix[0, 0] - self.inertia_matrix[1, 1]) * wx * wy)\n',
         '        xi = np.array([[q4, -q3, q2], [q3, q4, -q1], [-q2, q1, q4], [-q1, -q2, -q3]])\n'
         '        omega = np.array([wx, wy, wz])\n'
         '        q_derivative = xi.dot(omega) / 2\n'
         '        moments = [self.inertia_matrix[i, i] for i in range(3)]\n'
         '        products = (wy * wz, wx * wz, wx * wy)\n'
         '        w_derivative = [(moments[(i + 1) % 3] - moments[(i + 2) % 3]) * products[i] / moments[i] for i in range(3)]\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        state_derivative = np.array(\n'
         '            [\n'
         '                pos_vel_derivative[0],\n'
         '                pos_vel_derivative[1],\n'
         '                pos_vel_derivative[2],\n'
         '                q_derivative[0],\n'
         '                q_derivative[1],\n'
         '                q_derivative[2],\n'
         '                q_derivative[3],\n'
         '                pos_vel_derivative[3],\n'
         '                pos_vel_derivative[4],\n'
         '                pos_vel_derivative[5],\n'
         '                w_derivative[0],\n'
         '                w_derivative[1],\n'
         '                w_derivative[2]\n'
         '            ],\n'
         '            dtype=np.float32\n'
         '        )\n'
         '        return state_derivative\n',
         '        parts = (pos_vel_derivative[:3], q_derivative, pos_vel_derivative[3:], w_derivative)\n        return np.concatenate(parts).astype(np.float32)\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        w_derivative = np.array(\n            [[1 / self.inertia_matrix[0, 0], 0, 0], [0, 1 / self.inertia_matrix[1, 1], 0], [0, 0, 1 / self.inertia_matrix[2, 2]]]\n        )\n',
         '        w_derivative = np.diag(1 / np.diag(self.inertia_matrix))\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '            r1 = 1 / self.m * self.apply_quat(np.array([1, 0, 0]), quat)\n'
         '            r2 = 1 / self.m * self.apply_quat(np.array([0, 1, 0]), quat)\n'
         '            r3 = 1 / self.m * self.apply_quat(np.array([0, 0, 1]), quat)\n'
         '            vel_derivative = np.array([[r1[0], r2[0], r3[0]], [r1[1], r2[1], r3[1]], [r1[2], r2[2], r3[2]]])\n',
         '            axes = [self.apply_quat(axis, quat) / self.m for axis in np.eye(3)]\n            vel_derivative = np.column_stack(axes)\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        g = np.vstack(\n'
         '            (\n'
         '                np.zeros((7, 6)),\n'
         '                np.hstack((vel_derivative, np.zeros(vel_derivative.shape))),\n'
         '                np.hstack((np.zeros(w_derivative.shape), w_derivative))\n'
         '            )\n'
         '        )\n'
         '\n'
         '        return g\n',
         '        g = np.zeros((13, 6))\n        g[7:10, :3] = vel_derivative\n        g[10:, 3:] = w_derivative\n        return g\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        p = np.insert(x, 0, 0, axis=0)\n        r = np.array([quat[3], quat[0], quat[1], quat[2]])\n        r_p = np.array([quat[3], -quat[0], -quat[1], -quat[2]])\n',
         '        p = np.concatenate(([0], x))\n        r = np.roll(quat, 1)\n        r_p = r * np.array([1, -1, -1, -1])\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        for i in range(3):\n'
         '            acc_limit_combined[i] = min(ang_acc_limit[i], inertia_wheel * acc_limit_wheel / inertia_matrix[i, i])\n'
         '            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / inertia_matrix[i, i])\n'
         '            control_limit[i] = thrust_control_limit\n'
         '            control_limit[i + 3] = acc_limit_combined[i] * inertia_matrix[i, i]\n',
         '        moments = np.diagonal(inertia_matrix)\n'
         '        acc_limit_combined[:] = np.minimum(ang_acc_limit, inertia_wheel * acc_limit_wheel / moments)\n'
         '        vel_limit_combined[:] = np.minimum(ang_vel_limit, inertia_wheel * vel_limit_wheel / moments)\n'
         '        control_limit[:3] = thrust_control_limit\n'
         '        control_limit[3:] = acc_limit_combined * moments\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '        """get 3d position vector"""\n        position = np.array([self.x, self.y, self.z])\n        return position\n',
         '        """get 3d position vector"""\n        return self._state[:3].copy()\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py', '        return Rotation.from_quat([self.q1, self.q2, self.q3, self.q4])\n', '        return Rotation.from_quat(self._state[3:7])\n'),
        ('safe_autonomy_dynamics/cwh/sixdof_model.py',
         '            state_min = np.array(\n'
         '                [\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -np.inf,\n'
         '                    -ang_vel_limit[0],\n'
         '                    -ang_vel_limit[1],\n'
         '                    -ang_vel_limit[2]\n'
         '                ]\n'
         '            )\n',
         '            state_min = np.concatenate((np.full(10, -np.inf), -ang_vel_limit))\n')],
 'tab': [('safe_autonomy_dynamics/external/aerobench/util.py',
          '\n\ndef extract_single_result(',
          '\n'
          '\n'
          'def bracket(s, low, high):\n'
          '    """index of the nearest breakpoint towards zero and its neighbour"""\n'
          '    k = max(low, min(high, fix(s)))\n'
          '    frac = s - k\n'
          '    return k, k + fix(1.1 * sign(frac)), abs(frac)\n'
          '\n'
          '\n'
          'def blend(first, second, frac):\n'
          '    """linear interpolation"""\n'
          '    return first + frac * (second - first)\n'
          '\n'
          '\n'
          'def extract_single_result('),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/cn.py', 'import fix, sign', 'import blend, bracket, fix, sign'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/cn.py',
          '    s = .2 * alpha\n'
          '    k = fix(s)\n'
          '\n'
          '    if k <= -2:\n'
          '        k = -1\n'
          '\n'
          '    if k >= 9:\n'
          '        k = 8\n'
          '\n'
          '    da = s - k\n'
          '    l = k + fix(1.1 * sign(da))  # noqa: E741\n'
          '    s = .2 * abs(beta)\n'
          '    m = fix(s)\n'
          '\n'
          '    if m == 0:\n'
          '        m = 1\n'
          '\n'
          '    if m >= 6:\n'
          '        m = 5\n'
          '\n'
          '    db = s - m\n'
          '    n = m + fix(1.1 * sign(db))\n'
          '    l = l + 3  # noqa: E741\n'
          '    k = k + 3\n'
          '    m = m + 1\n'
          '    n = n + 1\n'
          '    t = a[k - 1, m - 1]\n'
          '    u = a[k - 1, n - 1]\n'
          '\n'
          '    v = t + abs(da) * (a[l - 1, m - 1] - t)\n'
          '    w = u + abs(da) * (a[l - 1, n - 1] - u)\n'
          '    dum = v + (w - v) * abs(db)\n'
          '\n'
          '    return dum * sign(beta)\n',
          '    k, l, da = bracket(.2 * alpha, -1, 8)  # noqa: E741\n'
          '    s = .2 * abs(beta)\n'
          '    m = min(fix(s), 5) or 1\n'
          '    db = s - m\n'
          '    n = m + fix(1.1 * sign(db))\n'
          '    columns = [blend(a[k + 2, j], a[l + 2, j], da) for j in (m, n)]\n'
          '    return blend(columns[0], columns[1], abs(db)) * sign(beta)\n'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/dnda.py', 'import fix, sign', 'import blend, bracket'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/dnda.py',
          '    s = .2 * alpha\n'
          '    k = fix(s)\n'
          '\n'
          '    if k <= -2:\n'
          '        k = -1\n'
          '\n'
          '    if k >= 9:\n'
          '        k = 8\n'
          '\n'
          '    da = s - k\n'
          '    l = k + fix(1.1 * sign(da))  # noqa: E741\n'
          '    s = .1 * beta\n'
          '    m = fix(s)\n'
          '    if m <= -3:\n'
          '        m = -2\n'
          '\n'
          '    if m >= 3:\n'
          '        m = 2\n'
          '\n'
          '    db = s - m\n'
          '    n = m + fix(1.1 * sign(db))\n'
          '    l = l + 3  # noqa: E741\n'
          '    k = k + 3\n'
          '    m = m + 4\n'
          '    n = n + 4\n'
          '    t = a[k - 1, m - 1]\n'
          '    u = a[k - 1, n - 1]\n'
          '    v = t + abs(da) * (a[l - 1, m - 1] - t)\n'
          '    w = u + abs(da) * (a[l - 1, n - 1] - u)\n'
          '\n'
          '    return v + (w - v) * abs(db)\n',
          '    k, l, da = bracket(.2 * alpha, -1, 8)  # noqa: E741\n'
          '    m, n, db = bracket(.1 * beta, -2, 2)\n'
          '    v, w = (blend(a[k + 2, j + 3], a[l + 2, j + 3], da) for j in (m, n))\n'
          '    return blend(v, w, db)\n'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/cz.py', 'import fix, sign', 'import blend, bracket'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/cz.py',
          '    s = .2 * alpha\n'
          '    k = fix(s)\n'
          '\n'
          '    if k <= -2:\n'
          '        k = -1\n'
          '\n'
          '    if k >= 9:\n'
          '        k = 8\n'
          '\n'
          '    da = s - k\n'
          '    l = k + fix(1.1 * sign(da))  # noqa: E741\n'
          '    l = l + 3  # noqa: E741\n'
          '    k = k + 3\n'
          '    s = a[k - 1] + abs(da) * (a[l - 1] - a[k - 1])\n'
          '\n'
          '    return s * (1 - (beta / 57.3)**2) - .19 * (el / 25)\n',
          '    k, l, da = bracket(.2 * alpha, -1, 8)  # noqa: E741\n    s = blend(a[k + 2], a[l + 2], da)\n    return s * (1 - (beta / 57.3)**2) - .19 * el / 25\n'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/pdot.py',
          'def pdot(p3, p1):\n'
          "    'pdot function'\n"
          '\n'
          '    if p1 >= 50:\n'
          '        if p3 >= 50:\n'
          '            t = 5\n'
          '            p2 = p1\n'
          '        else:\n'
          '            p2 = 60\n'
          '            t = rtau(p2 - p3)\n'
          '    else:\n'
          '        if p3 >= 50:\n'
          '            t = 5\n'
          '            p2 = 40\n'
          '        else:\n'
          '            p2 = p1\n'
          '            t = rtau(p2 - p3)\n'
          '\n'
          '    pd = t * (p2 - p3)\n'
          '\n'
          '    return pd\n',
          'def pdot(p3, p1):\n'
          "    'pdot function'\n"
          '\n'
          '    if (p1 >= 50) == (p3 >= 50):\n'
          '        p2 = p1\n'
          '    else:\n'
          '        p2 = 60 if p1 >= 50 else 40\n'
          '    rate = 5 if p3 >= 50 else rtau(p2 - p3)\n'
          '    return rate * (p2 - p3)\n'),
         ('safe_autonomy_dynamics/external/aerobench/lowlevel/rtau.py',
          "def rtau(dp):\n    'rtau function'\n\n    if dp <= 25:\n        rt = 1.0\n    elif dp >= 50:\n        rt = .1\n    else:\n        rt = 1.9 - .036 * dp\n\n    return rt\n",
          "def rtau(dp):\n    'rtau function'\n\n    if dp >= 50:\n        return .1\n    return 1.0 if dp <= 25 else 1.9 - .036 * dp\n")],
 'ver': [('safe_autonomy_dynamics/external/aerobench/util.py',
          "        for i in range(results['states'].size // num_state_vars):\n"
          '            vt, alpha, beta, _phi, \\\n'
          '                _theta, _psi, _p, _q, \\\n'
          '                _r, _pos_n, _pos_e, alt, \\\n'
          "                *_ = results['states'][i]\n"
          "            nz = results['Nz_list'][i]\n"
          "            ps = results['ps_list'][i]\n"
          '\n'
          '            if self.safety_limits.altitude is not None:\n'
          '                assert self.safety_limits.altitude[0] <= alt <= self.safety_limits.altitude[1], \\\n'
          '                    f"Altitude ({alt}) is not within the specified limits \\\n'
          '                        ({self.safety_limits.altitude[0]}, {self.safety_limits.altitude[1]})."\n'
          '\n'
          '            if self.safety_limits.Nz is not None:\n'
          '                assert self.safety_limits.Nz[0] <= nz <= self.safety_limits.Nz[1], \\\n'
          '                    f"Nz ({nz}) is not within the specified limits \\\n'
          '                        ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."\n'
          '\n'
          '            if self.safety_limits.v is not None:\n'
          '                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \\\n'
          '                    f"Airspeed ({vt}) is not within the specified limits \\\n'
          '                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."\n'
          '\n'
          '            if self.safety_limits.alpha is not None:\n'
          '                assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \\\n'
          '                    f"alpha ({nz}) is not within the specified limits \\\n'
          '                        ({self.safety_limits.alpha[0]}, {self.safety_limits.alpha[1]})."\n'
          '\n'
          '            if self.safety_limits.psMaxAccelDeg is not None:\n'
          '                assert np.rad2deg(ps) <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."\n'
          '\n'
          '            if self.safety_limits.betaMaxDeg is not None:\n'
          '                assert np.rad2deg(beta) <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."\n',
          "        ticks = results['states'].size // num_state_vars\n"
          '        for i in range(ticks):\n'
          "            self._check_tick(results['states'][i], results['Nz_list'][i], results['ps_list'][i])\n"
          '\n'
          '    def _check_tick(self, state, nz, ps):\n'
          '        limits = self.safety_limits\n'
          '        ranged = {\n'
          "            'Altitude': (limits.altitude, state[11]), 'Nz': (limits.Nz, nz), 'Airspeed': (limits.v, state[0]), 'alpha': (limits.alpha, state[1])\n"
          '        }\n'
          '        for label, (bounds, value) in ranged.items():\n'
          '            if bounds is not None:\n'
          '                low, high = bounds[0], bounds[1]\n'
          '                assert low <= value <= high, f"{label} ({value}) is not within the specified limits ({low}, {high})."\n'
          "        for label, bound, value in (('Ps', limits.psMaxAccelDeg, ps), ('Beta', limits.betaMaxDeg, state[2])):\n"
          '            if bound is not None:\n'
          '                assert np.rad2deg(value) <= bound, f"{label} is not less than the specified max."\n'),
         ('safe_autonomy_dynamics/external/aerobench/util.py',
          "        self.altitude = kwargs['altitude'] if 'altitude' in kwargs and kwargs['altitude'] is not None else None\n"
          "        self.Nz = kwargs['Nz'] if 'Nz' in kwargs and kwargs['Nz'] is not None else None\n"
          "        self.v = kwargs['v'] if 'v' in kwargs and kwargs['v'] is not None else None\n"
          "        self.alpha = kwargs['alpha'] if 'alpha' in kwargs and kwargs['alpha'] is not None else None\n"
          '\n'
          "        self.psMaxAccelDeg = kwargs['psMaxAccelDeg'] if ('psMaxAccelDeg' in kwargs and kwargs['psMaxAccelDeg'] is not None) else None\n"
          "        self.betaMaxDeg = kwargs['betaMaxDeg'] if 'betaMaxDeg' in kwargs and kwargs['betaMaxDeg'] is not None else None\n",
          "        for limit in ('altitude', 'Nz', 'v', 'alpha', 'psMaxAccelDeg', 'betaMaxDeg'):\n            setattr(self, limit, kwargs.get(limit))\n"),
         ('safe_autonomy_dynamics/external/aerobench/util.py',
          '            yd = self.der_func(self.t, self.y)\n'
          '\n'
          '            self.t += self.tstep\n'
          '\n'
          '            if self.t + self.time_tol >= self.tend:\n'
          '                self.t = self.tend\n'
          '\n'
          '            dt = self.t - self.tprev\n'
          '            self.y += dt * yd\n'
          '\n'
          '            if self.t == self.tend:\n'
          "                self.status = 'finished'\n",
          '            slope = self.der_func(self.t, self.y)\n'
          '            last = self.t + self.tstep + self.time_tol >= self.tend\n'
          '            self.t = self.tend if last else self.t + self.tstep\n'
          '            self.y += (self.t - self.tprev) * slope\n'
          "            self.status = 'finished' if last else 'running'\n"),
         ('safe_autonomy_dynamics/external/aerobench/util.py',
          '        dy = self.y - self.yprev\n'
          '        dt = self.t - self.tprev\n'
          '\n'
          '        dydt = dy / dt\n'
          '\n'
          '        yprev = self.yprev\n'
          '        tprev = self.tprev\n'
          '\n'
          '        def fun(t):\n'
          '            """return state at time t (linear interpolation)"""\n'
          '\n'
          '            deltat = t - tprev\n'
          '\n'
          '            return yprev + dydt * deltat\n'
          '\n'
          '        return fun\n',
          '        yprev, tprev = self.yprev, self.tprev\n        dydt = (self.y - yprev) / (self.t - tprev)\n        return lambda t: yprev + (t - tprev) * dydt\n'),
         ('safe_autonomy_dynamics/external/aerobench/controlled_f16.py',
          '    xd = np.zeros((x_f16.shape[0], ))\n'
          '    xd[:len(xd_model)] = xd_model\n'
          '\n'
          '    # integrators from low-level controller\n'
          '    start = len(xd_model)\n'
          '    end = start + llc.get_num_integrators()\n'
          '    int_der = llc.get_integrator_derivatives(u_ref, nz, ps, ny_r)\n'
          '    xd[start:end] = int_der\n'
          '\n'
          '    # Convert all degree values to radians for output\n'
          '    u_rad = np.zeros((7, ))  # throt, ele, ail, rud, Nz_ref, ps_ref, Ny_r_ref\n'
          '\n'
          '    u_rad[0] = u_deg[0]  # throttle\n'
          '\n'
          '    for i in range(1, 4):\n'
          '        u_rad[i] = deg2rad(u_deg[i])\n'
          '\n'
          '    u_rad[4:7] = u_ref[0:3]  # inner-loop commands are 4-7\n',
          '    int_der = llc.get_integrator_derivatives(u_ref, nz, ps, ny_r)\n'
          '    xd = np.zeros_like(x_f16, dtype=float)\n'
          '    for i, rate in enumerate([*xd_model, *int_der]):\n'
          '        xd[i] = rate\n'
          '\n'
          '    # throt, ele, ail, rud, Nz_ref, ps_ref, Ny_r_ref\n'
          '    u_rad = np.concatenate(([u_deg[0]], deg2rad(u_deg[1:4]), u_ref[:3]))\n')]}
def sh(cmd, cwd=None, env=None):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,env=env); return r.returncode, r.stdout+r.stderr
if __name__=="__main__":
    names=sys.argv[1].split(",") if len(sys.argv)>1 else list(B)
    props=sys.argv[2].split(",") if len(sys.argv)>2 else ["C%02d"%i for i in range(1,29)]
    for n in names:
        d="/tmp/rf/"+n; sh("rm -rf "+d); sh("cp -a /repo "+d)
        ok=True
        for f,o,nw in B[n]:
            p=d+"/"+f; s=open(p).read()
            if s.count(o)<1: print(n,"EDIT",s.count(o),f,repr(o[:70])); ok=False; continue
            open(p,"w").write(s.replace(o,nw,1))
        env=dict(os.environ,PYTHONPATH=d,JAX_PLATFORMS="cpu",PYTHONDONTWRITEBYTECODE="1")
        _,o=sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --continue-on-collection-errors",d,env)
        print(n,"tests:",o.strip().splitlines()[-1],flush=True)
        for p in props:
            t=time.time()
            env=dict(os.environ,VF_REPO=d,PYTHONPYCACHEPREFIX="/tmp/rf/pyc")
            rc,o=sh("./check.py %s --tier quick"%p,"/verif",env)
            und=[l for l in o.splitlines() if "UNDECIDED" in l]
            print(" ",n,p,"rc",rc,"%.0fs"%(time.time()-t),"undecided",len(und),flush=True)
            if rc or und: print("     ","\n      ".join([l for l in o.splitlines() if "VIOLATION" in l or "UNDECIDED" in l][:8]))
