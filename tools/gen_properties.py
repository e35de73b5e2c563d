"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
BM = "safe_autonomy_dynamics/base_models.py"
IN = "safe_autonomy_dynamics/integrators.py"
DU = "safe_autonomy_dynamics/dubins.py"
PM = "safe_autonomy_dynamics/cwh/point_model.py"
RM = "safe_autonomy_dynamics/cwh/rotational_model.py"
SM = "safe_autonomy_dynamics/cwh/sixdof_model.py"
SU = "safe_autonomy_dynamics/cwh/sun_model.py"
UT = "safe_autonomy_dynamics/utils.py"
AB = "safe_autonomy_dynamics/external/aerobench/"
LL = AB + "lowlevel/"


def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


add("C01", "Commands reaching the dynamics never exceed the actuator limits",
    "Whatever action is given to an entity's step (none, dictionary, list or array, of any magnitude), the control vector the entity's dynamics receives lies element by element inside the entity's actuator limits, which are those given at construction or the documented defaults. Components already inside their limits are passed on unchanged, components outside are replaced by the limit they exceed. A warning is issued exactly when some component was out of range.",
    ["inputs", "configurations"], "every action value (finite real), every action form, every actuator limit vector or scalar incl. infinite limits, every entity class, every control dimension",
    "Tests sample a handful of clipped actions per entity; the guarantee is over all real command values, limits and action forms.",
    [BM, IN, DU, PM, RM, SM], [("BaseEntity.step clips the control before calling the dynamics", BM)],
    ["control argument seen by dynamics.step", "warnings"],
    [{"name": "control_min/control_max", "meaning": "actuator limits", "where": BM}])
add("C02", "Actions are translated into commands faithfully, and bad ones rejected",
    "With no action the entity's default command is applied; a list or array action is used component by component; a dictionary action overrides exactly the named actuators and leaves every other component at the default. An actuator name the entity does not publish raises KeyError, and an action of an unsupported type raises ValueError.",
    ["inputs", "configurations"], "every subset and order of actuator names, every unknown name, every value, every default command",
    "Tests use one or two dictionary/list actions per entity and no invalid ones; the claim covers all subsets, orders and values.",
    [BM], [("BaseEntity.step action unpacking", BM)], ["control argument seen by dynamics.step", "exceptions"])
add("C03", "Each named actuator drives exactly its own axis",
    "For every entity the published actuator names address distinct components of the command vector, one name per component. Commanding a single named actuator changes the time derivative of exactly the quantity the name announces (thrust_x/y/z the acceleration along that thrust axis, moment_x/y/z the angular acceleration about that axis, heading_rate, gamma_rate, roll_rate and acceleration the rate they name), in the commanded direction and proportionally.",
    ["inputs", "configurations"], "every entity class, every actuator name, every command value within limits, every state and mass/inertia",
    "The integrator entities have no tests at all and the others test a few named commands at a few states.",
    [IN, DU, PM, RM, SM], [("control_map of each entity", IN), ("state_transition_input of each dynamics", SM)],
    ["entity.control_map", "dynamics.compute_state_dot"])
add("C04", "State limits hold after every step",
    "After any step every component of the new state lies within the dynamics' state limits, whatever the starting state, action, step size and integration method (for angle-wrapped components: provided their limits are infinite or lie inside the wrap interval). In particular Dubins speed, flight-path angle and roll stay inside the configured ranges and spacecraft angular rates inside the configured angular velocity limit.",
    ["inputs", "configurations", "histories"], "all states, controls, step sizes, limit vectors (finite or infinite, scalar or per component), state dimensions and integration methods",
    "Tests check a few trajectories that reach one limit; they cannot cover all states, limits and integrators.",
    [BM, DU, RM, SM], [("BaseDynamics.step clips the next state", BM), ("state_min/state_max built by the entity constructors", DU)],
    ["entity.state and accessors after step"])
add("C05", "Angle wrapping keeps angles equivalent and in range",
    "After a step every component with a wrap center c lies in [c-pi, c+pi] and differs from the unwrapped angle by an integer multiple of 2*pi, for every center. Components without a wrap center are not altered by wrapping.",
    ["inputs", "configurations"], "all real angles, all finite wrap centers, all patterns of wrapped/unwrapped components, all dimensions",
    "Tests wrap angles themselves before comparing and only use center 0.",
    [BM, DU, RM], [("BaseDynamics._wrap_angles", BM)], ["state returned by dynamics.step"])
add("C06", "Rate limits and state bounds are respected by the derivative",
    "The state derivative that is integrated and reported always lies within the configured derivative limits, and at a state bound it never points out of the allowed range (with equal lower and upper bound it is zero). Components strictly inside their bounds and rate limits are the model's derivative unchanged. All integration methods integrate this same limited derivative.",
    ["inputs", "configurations"], "all states, controls, derivative limits containing zero, state limits, dimensions, all integration methods",
    "Tests never inspect the limited derivative and the JAX integration path is not run by the stable tests.",
    [BM, RM, DU], [("compute_state_dot and its two clipping stages", BM), ("compute_state_dot_jax", BM)],
    ["dynamics.compute_state_dot", "right-hand side handed to the ODE solvers"])
add("C07", "A step integrates the model over exactly the requested duration",
    "A step advances the state by integrating the model's derivative from the current state, with the command held constant, over exactly the requested step size: explicit Euler yields state plus step size times derivative, and the Runge-Kutta methods solve that same initial value problem at no looser than the solver's default accuracy. The reported derivative is the model derivative at the end of the integration, requested trajectory samples are equally spaced and end at the end of the step, and an unknown or inconsistent integration method raises ValueError.",
    ["inputs", "configurations"], "all states, commands, step sizes > 0, sample counts, dimensions, integration methods",
    "Tests compare a few trajectories at step size 1 with wide tolerances; Euler and trajectory sampling are untested.",
    [BM], [("BaseODESolverDynamics._step", BM)], ["dynamics.step result", "arguments of the ODE solver calls", "dynamics.trajectory"])
add("C08", "A step depends only on state, action, step size and configuration",
    "Stepping an entity changes nothing but its own state, its reported derivative and the stored trajectory samples: no hidden state is carried from one step to the next or between entities. Hence two steps from equal states with equal actions and step sizes give equal results, whatever happened before.",
    ["histories", "inputs"], "all sequences of steps, actions (valid and invalid), state assignments and interleavings of several entities",
    "Tests run fixed sequences from fresh entities and can not enumerate histories.",
    [BM, IN, DU, PM, RM, SM, SU], [("entities keep only _state and state_dot", BM)], ["entity.state/state_dot after equal steps at different points of a history"])
add("C09", "A rejected step leaves the entity unchanged",
    "If a step raises (unknown actuator, unsupported action type, unknown integration method, an error inside the dynamics), the entity's state and reported derivative are exactly those from before the call, and the default command is intact.",
    ["inputs", "histories", "fault_sequences"], "every action that makes step raise and every point of the dynamics at which an error can be raised, all states",
    "No test triggers a failing step.",
    [BM], [("state is assigned only after the dynamics returned", BM)], ["entity.state, entity.state_dot, entity.control_default after the exception"])
add("C10", "State, commands and inputs are isolated from aliasing",
    "The state and vectors an entity hands out are copies and the state it is given is copied, so changing either afterwards never changes the entity. Stepping never modifies the caller's action, the default command or the limits, evaluating dynamics never modifies the state or control arrays passed in, and entities never share mutable state.",
    ["inputs", "histories"], "all entities, states, actions and element writes into any array obtained from or given to the entity",
    "Tests never write into returned arrays.",
    [BM, IN, DU, PM, RM, SM], [("copying in the state getter/setter and vector accessors", BM)], ["entity.state after writes into handed-out or handed-in arrays"])
add("C11", "Construction puts every initial value where the accessors read it",
    "Every initial-condition argument of an entity ends up, to single precision, in exactly the quantity of that name reported by the entity's accessors (planar and one-dimensional models accept a full position but report zero for the coordinates they do not model), and the vector accessors (position, velocity, angular velocity, quaternion) are composed of the scalar ones in x, y, z order. Arguments that are omitted take their documented defaults, which form a valid state; unknown argument names are rejected. Accessors that can be assigned set exactly the quantity they report.",
    ["inputs", "configurations"], "all numeric initial values, all subsets of arguments, all entity classes",
    "Tests construct a few entities and mostly overwrite the state vector directly.",
    [IN, DU, PM, RM, SM, SU], [("validators and _build_state of each entity", SM)], ["entity accessors after construction"])
add("C12", "Quantities with units are converted exactly and reported in base units",
    "An initial value given as a quantity with units is converted to the entity's base unit for that field, whatever compatible unit it carries; plain numbers are taken to be in base units already; a quantity of incompatible dimension is rejected as a validation error. Accessors with units report the plain accessor's value in the matching base unit (length, velocity, angle, angular velocity, acceleration).",
    ["inputs", "configurations"], "all magnitudes, all compatible and incompatible units, all fields of all entities",
    "Tests convert a few quantities for two entities.",
    [BM, DU, PM, RM, SM, SU], [("build_unit_conversion_validator_fn", BM), ("BaseUnits", BM), ("*_with_units properties", BM)], ["entity accessors", "pint quantities returned"])
add("C13", "Entity equality is a true equivalence on kinematic state",
    "Comparing an entity with itself or with another of the same class in the same state (for Dubins aircraft including the reported acceleration) yields equal; entities of different kinds or, for moving vehicles, of different position or velocity (or attitude, where modelled) are unequal. Equality is symmetric and comparing with any other object yields False instead of failing.",
    ["inputs", "configurations"], "all pairs of entity classes and states, all foreign objects",
    "Tests compare about twenty fixed pairs and no integrator entities.",
    [IN, DU, PM, RM, SM, SU], [("__eq__ of each entity", IN)], ["entity == other"])
add("C14", "Relative position and velocity are differences of the absolute ones",
    "The position and velocity of another simulated entity relative to a spacecraft are the other's minus the spacecraft's own, for every pair of spacecraft models. They are therefore antisymmetric, zero for the entity itself and additive along chains, and querying them changes nothing.",
    ["inputs", "configurations"], "all pairs of spacecraft classes and all states",
    "Tests check six pairs in one fixed configuration.",
    [PM, RM, SM], [("entity_relative_position / entity_relative_velocity", PM)], ["returned vectors"])
add("C15", "All spacecraft models obey the same Clohessy-Wiltshire motion",
    "For every mass and mean motion the translational derivative of each spacecraft model is the Clohessy-Wiltshire one (x'' = 3n^2x + 2ny' + Fx/m, y'' = -2nx' + Fy/m, z'' = -n^2z + Fz/m), the planar model being its in-plane restriction. Unforced motion therefore conserves the Hill energy and the quantity y' + 2nx.",
    ["inputs", "configurations"], "all states, masses > 0, mean motions, forces; point, planar-rotation and six-degree-of-freedom models, 2d and 3d matrices",
    "Tests compare trajectories for the default mass and mean motion at fixed states; the planar model's own test file does not run.",
    [PM, RM, SM], [("generate_cwh_matrices", PM), ("state_transition_system", SM)], ["dynamics.compute_state_dot", "generate_cwh_matrices"])
add("C16", "Thrust acts along the reported attitude with unchanged magnitude",
    "Body-frame thrust accelerates the spacecraft by the thrust vector, rotated by exactly the orientation the entity reports, divided by the mass, for every attitude; its magnitude does not depend on attitude. With the Hill-frame option the six-degree-of-freedom thrust acts directly along the Hill axes.",
    ["inputs", "configurations"], "all planar angles, all unit quaternions, all thrust vectors and masses, both frame options",
    "Tests use a few attitudes aligned with the axes.",
    [RM, SM], [("state_transition_input", RM), ("apply_quat / hamilton_product", SM)], ["dynamics.compute_state_dot versus entity.orientation"])
add("C17", "Attitude kinematics and rigid-body rotation are physically consistent",
    "The six-degree-of-freedom attitude derivative keeps the quaternion norm constant and turns body-fixed vectors at exactly the body angular velocity. Torque-free rotation with principal-axis inertia conserves rotational energy and angular momentum magnitude, and a torque about a principal axis adds torque divided by that axis' inertia; the planar model's angle derivative is its angular rate.",
    ["inputs", "configurations"], "all quaternions, angular velocities, principal inertias > 0 and torques",
    "Tests use one isotropic inertia matrix, for which the gyroscopic terms vanish.",
    [SM, RM], [("state_transition_system", SM), ("apply_quat", SM)], ["dynamics.compute_state_dot"])
add("C18", "Rotational limits follow the weaker of vehicle and reaction wheel",
    "A spacecraft's moment limits per axis equal its inertia times the smaller of the requested angular acceleration limit and what the reaction wheel can deliver, and its angular rate is limited to the smaller of the requested limit and the wheel's momentum capacity over the inertia. This holds per axis for scalar, list and array limits and is symmetric about zero; thrust limits equal the configured thrust limit.",
    ["configurations"], "all wheel inertias, accelerations, speeds, vehicle inertias per axis, requested limits in every accepted form",
    "Tests use the default wheel and limits only.",
    [RM, SM, UT], [("spacecraft constructors", SM), ("number_list_to_np", UT)], ["entity.control_min/control_max", "dynamics.state_min/state_max"])
add("C19", "Dubins velocity, attitude and motion agree",
    "A Dubins aircraft's reported velocity equals its position derivative, has magnitude equal to its speed and points along the nose of its reported orientation. Heading turns at g/v*tan(roll) in the 3D model and at the commanded rate in 2D, speed, flight-path angle and roll change at their commanded rates, and the reported acceleration is the speed derivative along the velocity direction.",
    ["inputs"], "all headings, flight-path angles, rolls, speeds > 0 and commands within limits",
    "Tests compare a few maneuvers with loose bounds.",
    [DU], [("velocity/orientation/acceleration properties", DU), ("state_transition_system", DU)], ["entity accessors versus dynamics.compute_state_dot"])
add("C20", "Linear, point-mass and sun models implement their stated equations",
    "Linear models evolve as dx/dt = Ax + Bu and control-affine models as f(x) + g(x)u with the matrices given at construction, which later changes by the caller do not affect and whose shapes are checked. The 1d, 2d and 3d point-mass integrators accelerate by thrust/mass minus damping times velocity independently on each axis, and the sun angle advances at the constant mean motion.",
    ["inputs", "configurations"], "all states, controls, masses, damping values, system matrices and dimensions",
    "The integrator module has no tests; linear models are tested only through the CWH defaults.",
    [BM, IN, SU], [("BaseLinearODESolverDynamics", BM), ("generate_dynamics_matrices", IN)], ["dynamics.compute_state_dot"])
add("C21", "F-16 aerodynamic tables are looked up safely and interpolated correctly",
    "Every tabulated F-16 aerodynamic coefficient is, for every angle of attack, sideslip and elevator angle however extreme, the (bi)linear interpolation of its published table between the neighbouring breakpoints, extended linearly outside, and never fails or reads outside the table. It reproduces the table at the breakpoints, is continuous inside the table, and the rolling and yawing moments are odd in sideslip.",
    ["inputs"], "all real angles of attack, sideslip and elevator deflections; all eleven coefficient functions",
    "The F-16 package has no tests.",
    [LL + f for f in ("cl.py", "cm.py", "cn.py", "cx.py", "cy.py", "cz.py", "dampp.py", "dlda.py", "dldr.py", "dnda.py", "dndr.py")] + [AB + "util.py"],
    [("table lookup with clamped indices", LL + "cl.py"), ("fix / sign", AB + "util.py")], ["coefficient functions"])
add("C22", "F-16 engine and air data behave physically over the whole envelope",
    "Engine power always moves toward the commanded power at a bounded rate, rests exactly when it is reached, and stays within 0 to 100 percent for throttle within 0 to 1. Thrust is the published table interpolated in altitude, Mach number and power, never reading outside the tables and continuous at the military-power setting, and air data gives dynamic pressure and Mach number consistent with airspeed and the standard atmosphere formula used.",
    ["inputs"], "all power levels, throttle settings, altitudes below the model's ceiling, Mach numbers and airspeeds",
    "The F-16 package has no tests.",
    [LL + f for f in ("tgear.py", "rtau.py", "pdot.py", "thrust.py", "adc.py")], [("pdot/rtau engine lag", LL + "pdot.py"), ("thrust tables", LL + "thrust.py")], ["tgear, rtau, pdot, thrust, adc results"])
add("C23", "The F-16 polynomial aero model saturates at its validity range",
    "The polynomial (Morelli) aerodynamic coefficients are those of the published polynomials evaluated at angles and deflections limited to the model's validity range (alpha -10..45 deg, beta and rudder +-30, elevator +-25, aileron +-21.5), so beyond the range they stay at their boundary values. The damping contributions are proportional to the non-dimensional body rates, and in symmetric flight all lateral coefficients vanish.",
    ["inputs"], "all real angles, deflections, body rates, speeds > 0 and center-of-gravity offsets",
    "The F-16 package has no tests.",
    [LL + "morellif16.py"], [("clamping and polynomial evaluation", LL + "morellif16.py")], ["the six returned coefficients"])
add("C24", "F-16 equations of motion are kinematically and dynamically consistent",
    "For every flight state the F-16 position derivative has magnitude equal to airspeed and is the body velocity rotated by the Euler attitude, the Euler-angle rates correspond exactly to the body rates, and airspeed, angle-of-attack and sideslip rates correspond to the same body accelerations formed from aerodynamics, thrust, gravity and rotation. Symmetric wings-level flight without lateral input and pitch rate stays symmetric, and the reported normal and side load factors are the reported accelerations in g; the caller's state and control are not modified. The published state indices name the components in the order of the state vector.",
    ["inputs", "configurations"], "all states with speed > 0 and attitudes off the gimbal-lock and 90 degree singularities, all controls, both aerodynamic models",
    "The F-16 package has no tests.",
    [LL + "subf16_model.py"], [("subf16_model", LL + "subf16_model.py")], ["returned derivative and outputs"])
add("C25", "F-16 low-level control saturates and closes the loop consistently",
    "For every state and reference the F-16 low-level controller outputs throttle within 0 to 1, elevator within +-25, aileron within +-21.5 and rudder within +-30 degrees, equal to trim plus linear feedback whenever that is inside the limits. The controlled aircraft's derivative consists of the aircraft derivative at that control followed by the three tracking-error integrators, inputs, gains and trim point are never modified, and controller fields cannot be added after construction.",
    ["inputs", "histories"], "all flight states and references, both aerodynamic models and both integrator variants, all sequences of calls",
    "The F-16 package has no tests.",
    [LL + "low_level_controller.py", AB + "controlled_f16.py", AB + "util.py"], [("get_u_deg saturation", LL + "low_level_controller.py"), ("controlled_f16", AB + "controlled_f16.py"), ("Freezable", AB + "util.py")],
    ["get_u_deg and controlled_f16 results"])
add("C26", "F-16 trim cost is zero exactly at trim and enforces its constraints",
    "For every candidate the trim objective is non-negative and zero exactly when all derivatives penalised for the chosen flight condition vanish (including the turn, climb and pull-up targets). The flight-condition constraints on attitude, body rates and engine power are imposed on the state and power always matches the throttle gearing.",
    ["inputs", "configurations"], "all candidate vectors (3 and 7 variables), states, flight-condition parameters and the four flight conditions",
    "The F-16 package has no tests.",
    [LL + "clf16.py", LL + "conf16.py"], [("clf16 cost", LL + "clf16.py"), ("conf16 constraints", LL + "conf16.py")], ["returned cost, modified state"])
add("C27", "The fixed-step Euler solver advances monotonically to exactly the end time",
    "Each step of the fixed-step Euler solver moves time forward by the step size, shortened only to land exactly on the end time, adds elapsed time times the derivative evaluated at the old time and state, and stops changing once finished; the caller's initial state is not modified. The interpolant of a step reproduces that step's start and end states, also when used after further steps.",
    ["inputs", "histories"], "all derivative functions, start and end times, step sizes, numbers of steps taken",
    "The F-16 package has no tests.",
    [AB + "util.py"], [("Euler.step, Euler.dense_output", AB + "util.py")], ["solver t, y, status, interpolant values"])
add("C28", "Safety verification accepts exactly the runs within all limits",
    "The safety check of a simulation result raises if and only if at some tick a configured limit (altitude, normal load, airspeed, angle of attack, stability-axis roll rate, sideslip) is violated, whatever the number of ticks and with or without a controller given. Extracting one aircraft from a multi-aircraft result returns exactly that aircraft's state columns and records and does not alter the input.",
    ["inputs", "configurations", "histories"], "all result lengths, all states, all subsets of limits, all aircraft counts and indices",
    "The F-16 package has no tests.",
    [AB + "util.py"], [("SafetyLimitsVerifier.verify", AB + "util.py"), ("extract_single_result", AB + "util.py")], ["AssertionError or normal return", "extracted result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
