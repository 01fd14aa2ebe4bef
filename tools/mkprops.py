import json
B='run_time_assurance/rta/base.py'; S='run_time_assurance/rta/simplex.py'; A='run_time_assurance/rta/asif.py'
C='run_time_assurance/constraint.py'; K='run_time_assurance/controller.py'; U='run_time_assurance/utils/utils.py'
Z='run_time_assurance/zoo/cwh/'; D2=Z+'docking_2d.py'; D3=Z+'docking_3d.py'; I1=Z+'inspection_1v1.py'; I3=Z+'inspection_3d.py'
ZU=Z+'utils.py'; G='run_time_assurance/zoo/integrators/integrator_1d.py'; T='run_time_assurance/utils/sample_testing.py'; ST='run_time_assurance/state.py'
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ['return value of the filter call'],hook_needed=None)))
RUN="The existing tests are a handful of fixed simulation runs that only check that nothing crashes and that the plotted trajectories stay safe; "
p('C01','Filtered control respects the actuator limits',
 "Whenever a filter is enabled, every control vector it returns lies element by element between the configured lower and upper actuator limits. This holds for limits given as a single number, a list or an array, and a missing limit leaves that side unbounded; when the computed control is already within the limits it is returned unaltered. Backup control is limited in the same way.",
 ['inputs','configurations','histories'],"every filter kind, every limit configuration (none / number / list / array on either side), every state, step size, desired control and internal filter state",
 RUN+"they use symmetric scalar limits and never look at the returned values.",[B],
 [('RTAModule.filter_control / _clip_control',B+':51'),('ConstraintBasedRTA._clip_control_jax',B+':283'),('BackupControlBasedRTA.backup_control',B+':414')])
p('C02','A disabled filter passes the desired control through',
 "While a filter is disabled it returns exactly the desired control it was given, also outside the actuator limits, and reports that it is not intervening. It evaluates neither monitor, optimizer nor backup controller, so no internal latch or controller state advances.",
 ['inputs','histories','configurations'],"every history of calls before disabling, every filter kind, state and desired control",
 RUN+"disabling is never exercised after an intervention.",[B],[('RTAModule.filter_control',B+':51')],['return value','intervening flag'])
p('C03','Inputs are never modified and records never alias the caller',
 "Filtering never modifies the state or the desired control array of the caller. After every call the filter's record shows the desired control as it was given and the actual control equal to the returned one, and later in-place changes by the caller to any array it passed in or got back do not alter the record.",
 ['inputs','histories'],"every filter kind, every call and every later in-place modification of the caller's arrays",
 RUN+"aliasing needs a caller that mutates its arrays afterwards.",[B],[('copies in RTAModule.filter_control',B+':51'),('ConstraintBasedRTA.compute_filtered_control',B+':212'),('generate_info',B+':107')],['info record','caller arrays'])
p('C04','One-step switching filter: backup exactly when the next state is unsafe',
 "When not latched, the one-step look-ahead switching filter outputs the limited backup control and reports intervening exactly when some enabled constraint (including its bias) is negative at the state predicted for the control that would actually be applied. Otherwise it outputs the desired control limited to the actuator range and reports not intervening.",
 ['inputs','configurations'],"every number of constraints, every constraint function, bias, prediction model, backup controller, actuator limits and state, compiled or not",
 RUN+"they sample a few trajectories of two or three built-in systems.",[S,B],
 [('SimplexModule._filter_control',S+':68'),('SimplexModule._constraint_violation',S+':133'),('ExplicitSimplexModule._monitor',S+':214')],['return value','intervening flag'])
p('C05','Trajectory switching filter: backup exactly when the look-ahead is unsafe',
 "When not latched, the trajectory-based switching filter outputs the limited backup control exactly when some enabled constraint is negative at some point of the look-ahead: the state after applying the desired control for one step followed by one state per whole step of the backup window under the limited backup control. Otherwise it outputs the limited desired control; the intervening report agrees.",
 ['inputs','configurations'],"every window length and step size, number of constraints, dynamics and (stateful) backup controller",
 RUN+"a missing or extra look-ahead point changes nothing visible there.",[S,B],
 [('ImplicitSimplexModule.integrate',S+':269'),('ImplicitSimplexModule._monitor',S+':262'),('SimplexModule._constraint_violation',S+':133')],['return value','intervening flag'])
p('C06','Switching filter stays on backup for the whole latch time',
 "Once a switching filter engages, it keeps outputting the limited backup control and reporting intervening on every following step until the configured latch time has elapsed, whatever is desired. Only then is the desired control evaluated again, and every new engagement starts a full latch period, also after a reset or after being disabled.",
 ['histories','inputs','configurations'],"every sequence of calls with varying step sizes, engagements, resets and enable/disable toggles",
 "No existing test uses a non-zero latch time; the guarantee is about arbitrary call histories.",[S],
 [('SimplexModule._filter_control latch counter',S+':68'),('SimplexModule.reset',S+':35')],['return value','intervening flag'])
p('C07','Run-time changes of parameters and enable flags take effect at the next call',
 "Changing the parameters or the enabled flag of a constraint (or of a direct control inequality) between calls takes effect at the very next filter call, with compilation on or off, as if the filter had been built with the new values. A disabled constraint has no influence on the result.",
 ['histories','inputs','configurations'],"every sequence of parameter/enable changes between calls, for all filter kinds",
 "One existing test changes parameters on fixed scenarios and does not compare against a fresh filter.",[B,S,A],
 [('ConstraintBasedRTA._update_params',B+':206'),('ASIFModule._update_direct_inequality_params',A+':96'),('disabled rows/values',A+':694')],['return value'])
p('C08','Selecting constraints keeps exactly the named ones, in order',
 "Building a filter with a list of constraint names keeps exactly the constraints with those names, in their original order, and every later decision uses only those; without the option all constraints are used. If no name matches, construction fails with an error.",
 ['configurations','inputs'],"every constraint dictionary and every selection list",
 "No existing test uses the selection option.",[B],[('ConstraintBasedRTA.__init__',B+':163')],['set of enforced constraints','construction error'])
p('C09','Optimizing filter imposes the barrier condition of every constraint',
 "At every call the explicit optimizing filter restricts the control to exactly these conditions: the actuator limits, for each enabled constraint the barrier inequality made of its gradient along the system dynamics plus its strengthening function (the steeper recovery version with the recovery bias when the constraint is negative), and every enabled direct inequality. Only constraints with a slack priority may be relaxed, each by its own slack variable.",
 ['inputs','configurations'],"every number of constraints, constraint functions, gradients, dynamics, slack configuration, limits and state, compiled or not",
 RUN+"rows that never become active in those runs are never seen.",[A,C],
 [('ExplicitASIFModule._generate_barrier_constraint_mats',A+':395'),('ASIFModule._generate_actuation_constraint_mats',A+':133'),('ASIFModule._update_ineq_mats',A+':168')],['inequalities handed to the solver'])
p('C10','Optimizing filter is minimally invasive and flags interventions truthfully',
 "The optimizing filter returns the admissible control closest to the desired one (slack penalised by its priority), so an admissible desired control is returned unchanged up to solver tolerance. It reports intervening exactly when the applied optimum differs from the desired control by more than the configured threshold in Euclidean norm, and the constraints it names as causing the intervention are exactly those behind the active inequalities.",
 ['inputs','configurations'],"every set of inequalities, desired control, slack configuration and threshold",
 RUN+"optimality and the flag are not compared with anything.",[A],
 [('ASIFModule._optimize',A+':218'),('BaseOptimizationModule.monitor',A+':60'),('objective weights',A+':48')],['return value','intervening flag','constraints causing intervention'])
p('C11','Solver failure is announced and follows the configured policy',
 "When the optimizing filter's constraints admit no control, it either raises the solver error (if configured to) or issues a warning and falls back to the desired control, still limited to the actuator range. No other solver error is swallowed.",
 ['inputs','configurations'],"every infeasible problem and every solver error, for both policies",
 "No existing test makes the solver fail.",[A,U],[('ASIFModule._optimize',A+':218'),('SolverError / SolverWarning',U+':94')],['exception','warning','return value'])
p('C12','Implicit optimizing filter constrains every backup-trajectory point',
 "The implicit optimizing filter imposes, for each enabled constraint and each point of the simulated backup trajectory (the current state and one point per whole step of the backup window), the barrier inequality built from the constraint gradient at that point, the sensitivity of that point to the current state and the current dynamics. Slack relaxes only constraints with a slack priority, and every imposed row is attributed to the right constraint name.",
 ['inputs','configurations'],"every window length, step size, number of constraints, dynamics, backup controller and slack configuration",
 "The existing tests of this filter did not even run before the repairs made here.",[A],
 [('ImplicitASIFModule._generate_barrier_constraint_mats',A+':566'),('ImplicitASIFModule.integrate',A+':894'),('ImplicitASIFModule.invariance_constraints',A+':843')],['inequalities handed to the solver'])
p('C13','Trajectory subsampling keeps the configured points and nothing else',
 "For each constraint the rows kept by subsampling are exactly those of the configured trajectory points: the leading block and the regularly skipped remainder, reduced to the given number of points with the least constraint values when requested, plus the first and/or last point when requested. Rows of different constraints are never mixed, and the default keeps every point.",
 ['inputs','configurations'],"every subsampling configuration, trajectory length and constraint values",
 "No existing test configures subsampling.",[A,C],[('ImplicitASIFModule.subsample_constraints',A+':712'),('SubsampleConfigValidator',C+':16')],['inequalities handed to the solver'])
p('C14','Discrete-time optimizing filter enforces discrete barrier conditions',
 "The discrete optimizing filter hands its solver, for each enabled constraint, the condition that the finite-difference rate of the constraint over the step plus its strengthening function is non-negative (relaxed only by its own slack variable if it has a slack priority), together with the element-wise actuator limits, and minimises the squared deviation from the desired control. It returns the solver's control, flags intervention beyond the threshold, and announces solver failure as configured.",
 ['inputs','configurations'],"every number of constraints, step map, slack configuration, limits, state and desired control",
 "The existing test of this filter cannot run in this environment and only checks the final trajectory.",[A,C],
 [('DiscreteASIFModule',A+':966'),('DiscreteCBFConstraint.cbf_fn',C+':534')],['problem handed to the solver','return value'])
p('C15','Cascaded filters are applied in order and report any intervention',
 "A cascade passes the desired control through its member filters in list order, each receiving the previous one's output, the same state and step size, and returns the last output limited to the cascade's own actuator range. It reports intervening exactly when at least one member intervenes in that call.",
 ['inputs','configurations','histories'],"every number and kind of members and every call",
 "The existing cascade test cannot run in this environment.",[B],[('CascadedRTA.compute_filtered_control',B+':372')],['return value','intervening flag'])
p('C16','Multi-agent filter filters each agent against all others',
 "The combined multi-agent filter applies the per-agent filter to each agent's own slice of the desired control with that agent's state first and every other agent's state following in order, and places each result in the same agent's slice. It reports intervening exactly when some agent's filter intervened.",
 ['inputs','configurations'],"every number of agents, every per-agent filter, joint state and control",
 RUN+"a swapped or dropped agent is not compared with single-agent results.",[I3],[('CombinedInspectionRTA.compute_filtered_control',I3+':516'),('CombinedInspectionRTA.get_agent_state',I3+':530')],['return value'])
p('C17','Reset restores the initial behaviour',
 "After a reset a filter, including its backup controller, latches, integrators and member filters, behaves on any later input exactly as a freshly built filter with the same configuration.",
 ['histories','configurations'],"every history of calls before the reset and every continuation after it, for all filter kinds",
 "Existing tests never reset a filter that has been used.",[B,S,K,I1,I3],
 [('RTAModule.reset',B+':42'),('SimplexModule.reset',S+':35'),('RTABackupController.reset',K+':36'),('CascadedRTA.reset',B+':366')],['behaviour after reset'])
p('C18','Look-ahead never advances the backup controller',
 "Evaluating a look-ahead trajectory leaves the internal state of the backup controller as it was: only control that is really applied advances it, once per call. Saving and restoring is exact and repeatable for array, dictionary and absent controller states, and neither save, restore nor reset shares mutable state with the initial or saved copies.",
 ['histories','inputs','configurations'],"every stateful controller, every call history and window length",
 "The built-in controllers used by the tests keep no state.",[K,S,A],
 [('RTABackupController.save/restore/reset',K+':36'),('save/restore around integration',S+':290'),('generate_control',K+':54')],['controller state'])
p('C19','Reported constraint values are the unbiased values at the reported state',
 "After each call of an enabled filter the info record lists, for every constraint, the unbiased constraint value at the state passed in with the constraint's current parameters, marked as belonging to the last state. After an explicit update with a new state the record lists the values at that state, marked as current.",
 ['inputs','histories'],"every constraint set, state, parameter change and call sequence",
 RUN+"the record is never compared with recomputed values.",[B,C],[('ConstraintBasedRTA._update_constraint_values',B+':320'),('generate_info',B+':337')],['info record'])
p('C20','Constraint building blocks compute their documented formulas',
 "A constraint's enforced value is its function plus its bias while its reporting value carries no bias; the polynomial strengthening function is the sum of its coefficients times powers; the recovery strengthening function is ten times the normal one unless given; the magnitude, maximum and minimum state-limit constraints are non-negative exactly on their limit sets; and the higher-order construction equals the repeated Lie derivative plus strengthening term for every relative degree.",
 ['inputs','configurations'],"every state, coefficient list, bias, limit, index, relative degree and dynamics",
 "No existing test evaluates a building block on its own.",[C],
 [('ConstraintModule.compute/alpha_negative',C+':134'),('PolynomialConstraintStrengthener',C+':366'),('HOCBFConstraint',C+':398')],['constraint values'])
p('C21','Built-in spacecraft dynamics are mutually consistent',
 "The continuous, discrete-time and closed-form models of relative orbital motion describe the same system: the discrete matrices are the exact solution of the continuous matrices for every step length, mass and mean motion, the closed-form trajectory used for passive safety equals that solution, and prediction steps and the sun angle advance according to the same dynamics.",
 ['inputs','configurations'],"every mass, mean motion, step length, state and control",
 RUN+"a wrong coefficient changes the trajectories but not the test verdict.",[ZU,D2,D3,I1,I3,G],
 [('generate_cwh_matrices',ZU+':1'),('discrete_a_mat / discrete_b_mat',I1+':568'),('get_future_state',I1+':960')],['predicted states'])
p('C22','Built-in constraints describe their documented safe sets',
 "Each built-in constraint is non-negative exactly on its documented safe set: speed below the distance-dependent limit, braking-distance separation from the chief, other deputies and the maximum range, staying out of the sun cone, passive safety over the whole coast horizon, and one-dimensional stopping distance; its reporting value is non-negative exactly when the plain position or velocity requirement holds.",
 ['inputs','configurations'],"every state away from singular points and every parameter value",
 RUN+"a wrong sign or index away from the visited states is invisible.",[D2,D3,I1,I3,G],
 [('ConstraintDocking2dRelativeVelocity',D2+':560'),('ConstraintCWHChiefCollision',I1+':740'),('ConstraintCWHConicKeepOutZone',I1+':800'),('ConstraintPassivelySafeManeuver',I1+':905')],['constraint values'])
p('C23','Built-in filters are wired with their documented constraints and limits',
 "Every built-in filter enforces the full documented set of constraints, each with the limit, state component, dynamics, backup controller and actuator range given by its constructor options, so that changing an option changes exactly the constraint it documents.",
 ['configurations','inputs'],"every combination of constructor options of the built-in filters",
 RUN+"options other than the defaults are hardly used.",[D2,D3,I1,I3,G],
 [('_setup_constraints of the zoo filters',D2+':150'),('InspectionRTA._setup_constraints',I3+':140')],['constraint dictionary'])
p('C24','Delta-v filter switches before the fuel limit is exceeded and stays switched',
 "The delta-v filter hands over to its backup control in the very call in which the prediction (one step of the desired control followed by the backup manoeuvre over the horizon) first exceeds the fuel limit, and stays on backup, reporting intervening, until it is reset. Otherwise it returns the desired control within the actuator limits and leaves its integrator unchanged; on backup the integrator advances once per call.",
 ['inputs','histories','configurations'],"every state, desired control, horizon, limit and call history",
 "The existing test of this filter cannot run in this environment.",[I1],[('SwitchingDeltaVLimitRTA.compute_filtered_control',I1+':700'),('SwitchingDeltaVLimitRTA.backup_control',I1+':727')],['return value','intervening flag'])
p('C25','Sample-testing verdicts are truthful',
 "The safety-assurance sampler judges an episode safe only if the initial state and every later simulated state satisfy every constraint with its current parameters, unsafe if any later state violates one or the solver fails, and resamples if the initial state already violates one. The data tracker records every state, applied control and intervention flag in order and starts only from states that satisfy all constraints when asked to check.",
 ['inputs','histories','configurations'],"every constraint set, dynamics, controller, episode length and sampled state",
 "The existing sampling script only checks that it finishes.",[T],[('SafetyAssuranceSampleTestingModule._simulate_episode',T+':257'),('DataTrackingSampleTestingModule.simulate_episode',T+':122')],['verdicts','recorded arrays'])
p('C26','State wrappers read and write the right component',
 "Every named component of a state wrapper reads its own element of the state vector; assigning it changes that element to the given value and leaves every other element unchanged. Size and vector of the wrapper agree with the wrapped array.",
 ['inputs'],"every state vector, component and value",
 "No existing test assigns a component.",[ST,D2,D3,I1,G],[('RTAStateWrapper',ST+':1'),('Docking2dState',D2+':30'),('Docking3dState',D3+':30'),('Inspection3dState',I1+':46')],['component values'])
p('C27','Built-in backup controllers apply their documented control law',
 "The built-in backup controllers depend on nothing but the current state: the one-dimensional controller always commands full braking, and the docking controllers apply the negative linear-quadratic gain to the velocity error with the position error taken as zero, so they command nothing at rest. In one dimension, full braking from any state that satisfies the stopping-distance constraint never passes the docking position.",
 ['inputs','configurations'],"every state, mass and mean motion, and every stopping-distance-safe initial condition and braking time",
 RUN+"they never evaluate the controllers on their own.",[D2,D3,G],[('Docking2dStopLQRBackupController',D2+':536'),('Docking3dStopLQRBackupController',D3+':597'),('Integrator1dDockingBackupController',G+':360')],['backup control'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
