"""builds /verif/seeded/<id>/ from (file, old, new, demo).  Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'run_time_assurance/'
B, S, A, C, K = R + 'rta/base.py', R + 'rta/simplex.py', R + 'rta/asif.py', R + 'constraint.py', R + 'controller.py'
Z = R + 'zoo/cwh/'
D2, D3, I1, I3, ZU, G = Z + 'docking_2d.py', Z + 'docking_3d.py', Z + 'inspection_1v1.py', Z + 'inspection_3d.py', Z + 'utils.py', R + 'zoo/integrators/integrator_1d.py'
T = R + 'utils/sample_testing.py'
PRE = '''import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu"); os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
from collections import OrderedDict
import numpy as np, jax.numpy as jnp
from run_time_assurance.constraint import *
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta.base import *
from run_time_assurance.rta import *
import run_time_assurance.rta.simplex as simplex, run_time_assurance.rta.asif as asif

class Lin(ConstraintModule):
    """params: w . x + c"""
    def __init__(self, w, c, alpha=None, **kw):
        super().__init__(alpha=alpha or PolynomialConstraintStrengthener([0, 1.]), params={"w": jnp.array(w, float), "c": float(c)}, **kw)
    def _compute(self, state, params):
        return params["w"] @ state + params["c"]

class BC(RTABackupController):
    def __init__(self, u, **kw):
        self.u = jnp.array(u, float); super().__init__(**kw)
    def _generate_control(self, state, step_size, controller_state=None):
        return self.u, controller_state

class CountBC(RTABackupController):
    def __init__(self, u):
        self.u = jnp.array(u, float); super().__init__(controller_state_initial=jnp.zeros(1), jit_enable=False)
    def _generate_control(self, state, step_size, controller_state=None):
        return self.u * (1 + controller_state[0]), controller_state + 1

def mk(base, cons, **kw):
    class M(base):
        def _setup_constraints(self): return OrderedDict(cons)
        def _pred_state(self, state, step_size, control): return state + step_size * control
        def state_transition_system(self, state): return jnp.zeros(state.shape)
        def state_transition_input(self, state): return jnp.eye(state.size)
        def next_state_differentiable(self, state, step_size, control): return state + step_size * control
    return M(**kw)
'''
SEEDS = []
def seed(id, prop, file, edits, demo, needs, breaks):
    SEEDS.append((id, prop, file, edits, demo, needs, breaks))

seed('s01_one_sided_limits', 'C01', B, [("""        if self.control_bounds_low is not None or self.control_bounds_high is not None:
            control = np.clip(""", """        if self.control_bounds_low is not None and self.control_bounds_high is not None:
            control = np.clip(""")], '''
class M(RTAModule):
    def compute_filtered_control(self, s, dt, u): return u
m = M(control_bounds_low=-1.)
assert (m.filter_control(np.zeros(2), 1., np.array([-3., 2.])) == [-1., 2.]).all()
m = M(control_bounds_high=[1., 2.])
assert (m.filter_control(np.zeros(2), 1., np.array([3., 1.])) == [1., 1.]).all()
''', 'a limit on one side only', 'control above/below a one-sided actuator limit is returned')
seed('s02_last_lookahead_point', 'C05', S, [("        for state in states:\n", "        for state in states[:max(1, len(states) - 1)]:\n")], '''
m = mk(simplex.ImplicitSimplexModule, {"a": Lin([-1.], 3.5)}, backup_window=2., backup_controller=BC([1.]), jit_enable=False)
u = m.filter_control(np.array([1.]), 1., np.array([.2]))   # 1.2, 2.2, 3.2
assert not m.intervening
u = m.filter_control(np.array([1.]), 1., np.array([.8]))   # 1.8, 2.8, 3.8
assert m.intervening and u[0] == 1., u
''', 'jit disabled and a violation only at the very last point of the look-ahead', 'the last look-ahead point is not monitored')
seed('s03_recovery_bias', 'C09', A, [("c.alpha_negative(constraint_val) + c.bias_negative\n", "c.alpha_negative(constraint_val + c.bias_negative)\n")], '''
m = mk(asif.ExplicitASIFModule, {"a": Lin([1.], 0., bias_negative=-0.5)}, control_dim=1)
u = m.filter_control(np.array([-1.]), 1., np.array([0.]))
assert abs(u[0] - 10.5) < 1e-3, u      # u >= -(10*h + b) = 10.5
''', 'a constraint that is already negative and has a non-zero recovery bias', 'the recovery inequality uses a scaled bias')
seed('s04_max_norm_threshold', 'C10', A, [("np.linalg.norm(desired_control - actual_control) > self.epsilon", "np.linalg.norm(desired_control - actual_control, ord=np.inf) > self.epsilon")], '''
m = mk(asif.ExplicitASIFModule, {"a": Lin([1., 1.], 0.)}, control_dim=2, epsilon=0.1)
u = m.filter_control(np.zeros(2), 1., np.array([-.09, -.09]))
assert abs(u).max() < 1e-6 and m.intervening
''', 'a correction spread over several control components, each below the threshold', 'intervening is not reported although the Euclidean deviation exceeds the threshold')
seed('s05_restore_short_window', 'C18', S, [("        self.backup_controller_restore()\n\n        return jnp_stack_jit", "        if Nsteps > 1:\n            self.backup_controller_restore()\n\n        return jnp_stack_jit")], '''
m = mk(simplex.ImplicitSimplexModule, {"a": Lin([-1.], 100.)}, backup_window=1., backup_controller=CountBC([1.]), jit_enable=False)
for _ in range(3):
    m.filter_control(np.zeros(1), 1., np.zeros(1))
assert float(m.backup_controller.controller_state[0]) == 0.
m = mk(simplex.ImplicitSimplexModule, {"a": Lin([-1.], 100.)}, backup_window=3., backup_controller=CountBC([1.]), jit_enable=False)
m.filter_control(np.zeros(1), 1., np.zeros(1))
assert float(m.backup_controller.controller_state[0]) == 0.
''', 'a backup window of exactly one step and a stateful backup controller', 'the look-ahead advances the real controller state')
seed('s06_frozen_params', 'C07', B, [("            self.params[k] = c.params\n", "            self.params[k] = self.params[k] or c.params\n")], '''
c = Lin([1.], 0.)
m = mk(asif.ExplicitASIFModule, {"a": c}, control_dim=1)
c.params = {"w": jnp.array([1.]), "c": -2.}
u = m.filter_control(np.array([3.]), 1., np.array([-5.]))
assert abs(u[0] + 1.) < 1e-3, u
''', 'the parameter dictionary of a constraint is replaced (not mutated) after construction', 'the old parameters stay in force')
seed('s07_keep_last_row', 'C13', A, [("ineq_weight_barrier[num_steps * (i + 1) - 1, :][None]", "ineq_weight_barrier[num_steps * (i + 1) - int(i == 0), :][None]")], '''
import jax
m = mk(asif.ImplicitASIFModule, OrderedDict([(k, Lin([1.], 0., skip_length=2, num_check_all=0, keep_last=True)) for k in "abc"]), control_dim=1, backup_window=4., backup_controller=BC([0.]), jit_enable=False)
n = 5
W = jnp.arange(15.)[:, None]; c = jnp.arange(15.); v = jnp.zeros((3, 5))
w, k = m.subsample_constraints(W, c, v, n)
exp = [1, 3, 4, 6, 8, 9, 11, 13, 14]
assert [int(x) for x in w[:, 0]] == exp, w[:, 0]
assert [int(x) for x in k] == exp, k
''', 'keep_last with more than one constraint', 'the last-point row of the second constraint carries the weights of the next constraint')
seed('s08_reported_params', 'C19', B, [("self.constraint_values = {k: float(v.phi(state, v.params)) for k, v in self.constraints.items()}", "self.constraint_values = {k: float(v.phi(state, self.params[k])) for k, v in self.constraints.items()}")], '''
c = Lin([1.], 0.)
m = mk(simplex.ExplicitSimplexModule, {"a": c}, backup_controller=BC([0.]))
m.filter_control(np.array([3.]), 1., np.array([0.]))
c.params = {"w": jnp.array([1.]), "c": 5.}
m.update_constraint_values(np.array([1.]))
assert m.generate_info()["constraints"]["a"] == 6.
''', 'parameters replaced between the last filter call and an explicit update', 'the report uses the parameters of the last filter call')
seed('s09_swallowed_errors', 'C11', A, [("            if e.args[0] == \"constraints are inconsistent, no solution\":", "            if e.args[0] == \"constraints are inconsistent, no solution\" or not self.solver_exception:")], '''
m = mk(asif.ExplicitASIFModule, {"a": Lin([1.], 0., slack_priority_scale=1.)}, control_dim=1)
m.obj_weight = np.zeros((2, 2))
try:
    m.filter_control(np.array([3.]), 1., np.array([0.]))
except ValueError as e:
    assert "positive definite" in str(e)
else:
    raise SystemExit("a solver error other than infeasibility was swallowed")
''', 'a quadratic program the solver rejects for another reason than infeasibility', 'another solver error is swallowed')
seed('s10_cascade_flag', 'C15', B, [("            if rta.intervening:\n                self.intervening = True\n", "            self.intervening = rta.intervening\n")], '''
class P(RTAModule):
    def __init__(self, d): self.d = d; super().__init__()
    def compute_filtered_control(self, s, dt, u): self.intervening = self.d != 0; return u + self.d
class CC(CascadedRTA):
    def _setup_rta_list(self): return [P(1.), P(0.)]
c = CC()
u = c.filter_control(np.zeros(1), 1., np.zeros(1))
assert u[0] == 1. and c.intervening
''', 'an early member intervenes and the last one does not', 'the cascade reports no intervention')
seed('s11_reset_shares_initial', 'C18', K, [("""        self.controller_state = self._copy_controller_state(self.controller_state_initial)
        self._compose()

    def _copy""", """        self.controller_state = self.controller_state_initial
        self._compose()

    def _copy""")], '''
class DBC(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        controller_state["n"] = controller_state["n"] + 1
        return controller_state["n"], controller_state
b = DBC(controller_state_initial={"n": jnp.zeros(1)}, jit_enable=False)
for _ in range(2):
    b.reset()
    u = b.generate_control(jnp.zeros(1), 1.)
    assert float(u[0]) == 1., u
''', 'a controller that updates its state dictionary in place, and a second reset', 'the initial controller state is overwritten, so reset no longer restores it')
seed('s12_slack_owner', 'C09', A, [("""            if c.slack_priority_scale is not None:
                slack = slack.at[slack_counter].set(-1.)
                slack_counter += 1
            temp1""", """            if c.slack_priority_scale:
                slack = slack.at[-1 - slack_counter].set(-1.)
                slack_counter += 1
            temp1""")], '''
m = mk(asif.ExplicitASIFModule, OrderedDict([("a", Lin([1.], 0., slack_priority_scale=1e2)), ("b", Lin([-1.], 0., slack_priority_scale=1e10))]), control_dim=1)
# a wants u >= 0+.., b wants u <= ..: at x=0 with offsets make them conflict: b has the much higher priority
m.constraints["a"].params["c"] = -1.
u = m.filter_control(np.array([0.]), 1., np.array([0.]))
assert abs(u[0]) < .1, u        # high-priority b (u <= 0) is kept, a is relaxed
''', 'two constraints with slack of different priority that conflict', 'the slack priorities are swapped between the constraints')

seed('s13_last_state_unchecked', 'C25', T, [("""            current_time += self.step_size
            done = self._check_done_conditions(state, current_time)

            for c in self.rta.constraints.values():""", """            current_time += self.step_size
            done = self._check_done_conditions(state, current_time)
            if done:
                break

            for c in self.rta.constraints.values():""")], """
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule
class F(ConstraintBasedRTA):
    def _setup_constraints(self): return OrderedDict(c=Lin([-1.], 2.5))
    def _filter_control(self, state, dt, u): return u
class M(SafetyAssuranceSampleTestingModule):
    def _get_initial_state(self): return np.zeros(1)
    def _pred_state(self, state, step_size, control): return state + 1.
def go(T): return M(T, 1., 1, 1, rta=F(), n_points=1)._simulate_episode(np.zeros(1))
assert go(2.) is True
assert go(3.) is False          # only the last state violates
assert go(5.) is False
""", 'an episode whose only unsafe state is the last one', 'such an episode is reported as safe')

seed('s14_rotated_agents', 'C16', I3, [("""        x_old = np.delete(state, np.s_[6 * i : 6 * i + 6], 0)
        x = np.concatenate((x_i, x_old))""", """        n = 6 * self.num_deputies
        x_old = np.concatenate((state[6 * i + 6 : n], state[0 : 6 * i]))
        x = np.concatenate((x_i, x_old, state[n:]))""")], """
from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA
class R(RTAModule):
    def compute_filtered_control(self, s, dt, u): self.seen.append(np.array(s)); return u
r = R(); r.seen = []
c = CombinedInspectionRTA(num_deputies=3, deputy_rta=r)
x = np.arange(19.)
c.filter_control(x, 1., np.zeros(9))
for i in range(3):
    others = [j for j in range(3) if j != i]
    exp = np.concatenate([x[6 * i:6 * i + 6]] + [x[6 * j:6 * j + 6] for j in others] + [x[18:]])
    assert (r.seen[i] == exp).all(), (i, r.seen[i])
""", 'three or more agents; the middle agent', 'the order of the other agents in the state handed to an agent filter changes')

seed('s15_delta_v_net', 'C21', I1, [("""        delta_v = jnp.sum(jnp.abs(u)) / (self.m)""", """        delta_v = jnp.abs(jnp.sum(u)) / (self.m)""")], """
from run_time_assurance.zoo.cwh.inspection_1v1 import Inspection1v1RTA
r = Inspection1v1RTA()
xd = np.asarray(r.compute_state_dot(jnp.zeros(8), 0., jnp.array([1., -.5, .25])))
assert abs(xd[7] - 1.75 / r.m) < 1e-6, xd
""", 'a control with thrusts of opposite sign', 'the fuel use of opposite thrusts cancels')

seed('s16_coast_horizon', 'C22', I1, [("""        phi_array = vmapped_get_future_state(
            state,
            jnp.linspace(params["dt"], self.steps * params["dt"], self.steps),
            params["collision_radius"],
        )
        return jnp.min(phi_array)""", """        phi_array = vmapped_get_future_state(
            state,
            jnp.linspace(params["dt"], self.steps, self.steps),
            params["collision_radius"],
        )
        return jnp.min(phi_array)""")], """
from run_time_assurance.zoo.cwh.inspection_1v1 import ConstraintPassivelySafeManeuver
for dt in (1., 5., .5):
    c = ConstraintPassivelySafeManeuver(collision_radius=10., m=12., n=.001027, dt=dt, steps=20)
    x = jnp.array([100., 0., 0., -1., 0., 0., 0., 0.])
    exp = min(float(c.get_future_state(x, k * dt, 10.)) for k in range(1, 21))
    assert abs(float(c(x, c.params)) - exp) < 1e-2, (dt, float(c(x, c.params)), exp)
""", 'a coast step other than one second', 'the look-ahead covers the wrong times')

seed('s17_integral_in_place', 'C24', I1, [("""        error_integral = error_integral + error * step_size
        return np.clip""", """        error_integral += error * step_size
        return np.clip""")], """
from unittest import mock
import scipy.linalg
from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA
with mock.patch('scipy.linalg.solve_continuous_are', lambda A, B, Q, R: np.eye(A.shape[0])):
    r = SwitchingDeltaVLimitRTA(delta_v_limit=1e9, n_steps=5)
r.filter_control(np.array([1., 2., 3., .4, .5, .6, 0., 0.]), 1., np.zeros(3))
assert not r.intervening and (r.error_integral == 0).all(), r.error_integral
""", 'a call that does not intervene, followed by one that does', 'the prediction advances the integrator of the real backup controller')

seed('s18_z_limit_from_y', 'C23', D3, [("""            self.x_vel_limit,
            self.y_vel_limit,
            self.z_vel_limit,
        )

    def state_transition_system(self, state: jnp.ndarray) -> jnp.ndarray:
        return self._docking_f_x(state)

    def state_transition_input(self, state: jnp.ndarray) -> jnp.ndarray:
        return self._docking_g_x(state)


class Docking3dStopLQRBackupController(""", """            self.x_vel_limit,
            self.y_vel_limit,
            self.y_vel_limit,
        )

    def state_transition_system(self, state: jnp.ndarray) -> jnp.ndarray:
        return self._docking_f_x(state)

    def state_transition_input(self, state: jnp.ndarray) -> jnp.ndarray:
        return self._docking_g_x(state)


class Docking3dStopLQRBackupController(""")], """
from run_time_assurance.zoo.cwh.docking_3d import Docking3dImplicitOptimizationRTA
r = Docking3dImplicitOptimizationRTA(x_vel_limit=1., y_vel_limit=2., z_vel_limit=3.)
c = r.constraints['z_vel']
assert float(c.phi(jnp.array([0., 0., 0., 0., 0., 2.5]), c.params)) > 0
""", 'a z velocity limit different from the y limit', 'the option z_vel_limit is ignored by this filter')

seed('s19_lqr_position_feedback', 'C27', D2, [("""        state_des = state_des.at[2:].set(0)""", """        state_des = state_des.at[2:].set(0).at[1].set(jnp.abs(state[1]))""")], """
from run_time_assurance.zoo.cwh.docking_2d import Docking2dStopLQRBackupController
b = Docking2dStopLQRBackupController()
for y in (5., -5.):
    u, _ = b._generate_control(jnp.array([1., y, .3, -.2]), 1.)
    exp = -np.asarray(b.K) @ np.array([0., 0., .3, -.2])
    assert np.allclose(np.asarray(u), exp, atol=1e-5), (y, u, exp)
""", 'a negative y position', 'the stopping controller pushes on the position')

seed('s20_tracker_flag_stale', 'C25', T, [("""            rta_control = self.rta.filter_control(state, self.step_size, desired_control)
            state = self._pred_state(state, self.step_size, rta_control)
            current_time += self.step_size
            done = self._check_done_conditions(state, current_time)
            self._update_status(state, current_time)

            state_array.append(state)
            control_array.append(rta_control)
            intervening_array.append(self.rta.intervening)""", """            intervening_array.append(self.rta.intervening)
            rta_control = self.rta.filter_control(state, self.step_size, desired_control)
            state = self._pred_state(state, self.step_size, rta_control)
            current_time += self.step_size
            done = self._check_done_conditions(state, current_time)
            self._update_status(state, current_time)

            state_array.append(state)
            control_array.append(rta_control)""")], """
from run_time_assurance.utils.sample_testing import DataTrackingSampleTestingModule
class F(RTAModule):
    k = 0
    def compute_filtered_control(self, s, dt, u):
        self.k += 1; self.intervening = self.k == 2
        return u
class M(DataTrackingSampleTestingModule):
    def _get_initial_state(self): return np.zeros(1)
    def _pred_state(self, state, step_size, control): return state + 1.
s, u, v = M(4., 1., 1, 1, rta=F(), check_init_state=False).simulate_episode()
assert list(v) == [False, False, True, False, False], v
""", 'an episode in which the intervention flag changes', 'each flag is recorded one step late')


seed('s21_stale_args', 'C14', A, [("""                c['args'] = (state, step_size, params)
""", """                if c.get('args', (None, ))[0] is not state:
                    c['args'] = (state, c.get('args', (None, step_size))[1], params)
""")], """
m = mk(asif.DiscreteASIFModule, [("a", Lin([1.], -1.))], control_dim=1)
x = np.array([2.])
m.filter_control(x, 1., np.array([-5.]))            # h=1: u >= -1
u = m.filter_control(x, .25, np.array([-50.]))
# (h(x + dt u) - h(x)) / dt + h(x) = u + 1 >= 0 for a linear constraint: use a quadratic one to see the step size
class Q(ConstraintModule):
    def __init__(self):
        super().__init__(alpha=PolynomialConstraintStrengthener([0, 1.]))
    def _compute(self, state, params):
        return 4. - state[0]**2
m = mk(asif.DiscreteASIFModule, [("a", Q())], control_dim=1)
m.filter_control(np.array([1.]), 1., np.array([3.]))
u = float(m.filter_control(np.array([1.]), .1, np.array([3.]))[0])
# -(2 u + .1 u^2) + 3 >= 0 -> u = -10 + sqrt(130)
assert abs(u - (-10 + 130**.5)) < 1e-2, u
""", 'two calls with different step sizes', 'the step size of the first call is used for ever')

seed('s22_input_matrix_along', 'C12', A, [("""        g_x0 = self.state_transition_input(initial_state)

        grad_x""", """        g_x0 = self.state_transition_input(traj_state_array)

        grad_x""")], """
class M(asif.ImplicitASIFModule):
    def _setup_constraints(self): return OrderedDict([("a", Lin([-1., 0.], 3.))])
    def state_transition_system(self, state): return jnp.array([state[1], 0.])
    def state_transition_input(self, state): return jnp.array([[0.], [1. + state[0]**2]])
n = M(backup_window=2., backup_controller=BC([-.1]), control_dim=1, jit_enable=False)
x = jnp.array([1., 1.])
st, se = n.integrate(x, 1., 3)
w, c, v = n.invariance_constraints(n.constraints["a"], x, st[2], se[2], n.constraints["a"].params)
want = np.array([-1., 0.]) @ np.array(se[2]) @ np.array([[0.], [2.]])
assert np.allclose(np.array(w), want, atol=1e-4), (w, want)
""", 'an input matrix that depends on the state', 'rows use the input matrix at the trajectory point instead of the current state')

seed('s23_latch_once', 'C06', S, [("""            self.latched_elapsed = 0.
            self.intervening = self.monitor""", """            if self.latched_elapsed != self.latch_time:
                self.latched_elapsed = 0.
            self.intervening = self.monitor""")], """
m = mk(simplex.ExplicitSimplexModule, [("a", Lin([1.], 0.))], latch_time=2., backup_controller=BC([1.]))
def go(x): return m.filter_control(np.array([x]), 1., np.array([-1.])), m.intervening
go(.5)
assert m.intervening
go(9.); go(9.)                  # the latch runs off
assert go(9.)[1] is False
assert go(.5)[1] is True        # second engagement
assert go(9.)[1] is True and go(9.)[1] is True, 'no latch the second time'
""", 'a second engagement after a latch that ran off exactly', 'only the first engagement is latched')

seed('s24_selection_order', 'C08', B, [("""            for k in self.constraints.keys():
                if k in constraints_to_use:
                    new_constraints[k] = self.constraints[k]
""", """            for k in constraints_to_use:
                if k in self.constraints:
                    new_constraints[k] = self.constraints[k]
""")], """
m = mk(simplex.ExplicitSimplexModule, [("a", Lin([1.], 0.)), ("b", Lin([2.], 0.)), ("c", Lin([3.], 0.))], constraints_to_use=["c", "a"], backup_controller=BC([1.]))
assert list(m.constraints) == ["a", "c"], list(m.constraints)
""", 'names listed in another order than the constraints', 'constraints are ordered by the list')

seed('s25_hocbf_alpha', 'C20', C, [("""+ self.alpha(self.constraint(state, params))
""", """+ self.constraint.alpha(self.constraint(state, params))
""")], """
f = lambda x: jnp.array([x[1], 0.])
h = HOCBFConstraint(Lin([1., 0.], 0., alpha=PolynomialConstraintStrengthener([0, 5.])), 2, f, PolynomialConstraintStrengthener([0, 2.]))
v = float(h(jnp.array([1., 3.]), h.params))
assert abs(v - (3. + 2. * 1.)) < 1e-5, v
""", 'a base constraint with its own strengthening function', 'the first stage uses the strengthening function of the base constraint')

seed('s26_disabled_while_engaged', 'C02', B, [("""        if self.enable:
            control_actual""", """        if self.enable or self.intervening:
            control_actual""")], """
class M(ExplicitSimplexModule):
    def _setup_constraints(self): return OrderedDict([("p", Lin([1.], 0.))])
    def _pred_state(self, state, step_size, control): return state + step_size * control
m = M(backup_controller=BC([1.]), latch_time=5.)
m.filter_control(np.array([-1.]), 1., np.array([-1.]))
assert m.intervening
m.enable = False
r = m.filter_control(np.array([-1.]), 1., np.array([-7.]))
assert r[0] == -7. and not m.intervening, r
""", 'the filter is disabled while it intervenes', 'a disabled filter goes on filtering')
seed('s27_record_returned', 'C03', B, [("""        return np.copy(self.control_actual)
""", """        return self.control_actual if self.intervening else np.copy(self.control_actual)
""")], """
class M(ExplicitSimplexModule):
    def _setup_constraints(self): return OrderedDict([("p", Lin([1.], 0.))])
    def _pred_state(self, state, step_size, control): return state + step_size * control
m = M(backup_controller=BC([1.]))
r = m.filter_control(np.array([-1.]), 1., np.array([-1.]))
r *= 50.
assert m.generate_info()['control_actual'][0] == 1., m.control_actual
""", 'an intervening call whose result the caller changes in place', 'the record changes with the array of the caller')
seed('s28_current_state_too', 'C04', S, [("""        pred_state = self._pred_state_fn(state, step_size, control)
        return bool(self._constraint_violation_fn(add_dim_jit(pred_state), self.params, self.constraint_enabled_dict))
""", """        pred_state = self._pred_state_fn(state, step_size, control)
        states = jnp.stack((state, pred_state)) if intervening else add_dim_jit(pred_state)
        return bool(self._constraint_violation_fn(states, self.params, self.constraint_enabled_dict))
""")], """
class M(ExplicitSimplexModule):
    def _setup_constraints(self): return OrderedDict([("p", Lin([1.], 0.))])
    def _pred_state(self, state, step_size, control): return state + step_size * control
m = M(backup_controller=BC([1.]))
m.filter_control(np.array([-3.]), 1., np.array([-1.]))
r = m.filter_control(np.array([-1.]), 1., np.array([4.]))
assert r[0] == 4. and not m.intervening, r
""", 'a call after an intervention, from an unsafe state with a desired control that leads back', 'the filter stays on backup although the next state is safe')
seed('s29_reset_only_when_latched', 'C17', S, [("""        self.reset_backup_controller()
""", """        if self.latch_time > 0:
            self.reset_backup_controller()
""")], """
class Cnt(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return controller_state, controller_state + 1.
class M(ExplicitSimplexModule):
    def _setup_constraints(self): return OrderedDict([("p", Lin([1.], 0.))])
    def _pred_state(self, state, step_size, control): return state + step_size * control
m = M(backup_controller=Cnt(controller_state_initial=jnp.array([1.]), jit_enable=False), jit_enable=False)
a = m.filter_control(np.array([-3.]), 1., np.array([-1.]))
m.reset()
b = m.filter_control(np.array([-3.]), 1., np.array([-1.]))
assert a[0] == b[0], (a, b)
""", 'a stateful backup controller and a filter without latch time', 'the backup controller goes on from its old state after a reset')
seed('s30_clamped_setter', 'C26', D2, [("""        self.vector = self.vector.at[1].set(val)
""", """        self.vector = self.vector.at[1].max(val)
""")], """
from run_time_assurance.zoo.cwh.docking_2d import Docking2dState
s = Docking2dState(jnp.array([1., 2., 3., 4.]))
s.y = 5.
assert s.y == 5.
s.y = -1.
assert s.y == -1., s.vector
""", 'assigning a smaller value than the present one', 'the component keeps its old value')


def main():
    wt = '/tmp/seed_wt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    only = sys.argv[1:]
    for id, prop, file, edits, demo, needs, breaks in SEEDS:
        if only and id not in only:
            continue
        d = os.path.join(HERE, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        f = file if isinstance(file, list) else [file]
        ed = edits if isinstance(edits[0], tuple) and len(edits[0]) == 3 else [(f[0], o, n) for o, n in edits]
        for fl, o, n in ed:
            p = os.path.join(wt, fl)
            s = open(p).read()
            assert s.count(o) == 1, (id, s.count(o), o)
            open(p, 'w').write(s.replace(o, n))
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout)
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + demo)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        r2 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, capture_output=True, text=True)
        subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
        print(id, 'clean', r1.returncode, 'patched', r2.returncode, '' if r1.returncode == 0 and r2.returncode != 0 else 'BAD ' + (r1.stderr + r2.stderr)[-600:], flush=True)
    shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    main()
