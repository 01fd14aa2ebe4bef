"""C25: sample-testing modules"""
import contextlib
import csv
import io
import os
import tempfile
from collections import OrderedDict
import numpy as np
import jax.numpy as jnp
from monitor.common import mon
from run_time_assurance.constraint import ConstraintModule, ConstraintStrengthener
from run_time_assurance.rta.base import ConstraintBasedRTA
from run_time_assurance.utils import SolverError
from run_time_assurance.utils import sample_testing as ST


class Al(ConstraintStrengthener):
    def __call__(self, x):
        return x


class Half(ConstraintModule):
    """h(x) = a.x + b - margin, phi(x) = a.x + b with b a live parameter"""

    def __init__(self, a, b, margin, **kw):
        self.a, self.margin = jnp.array(a), margin
        super().__init__(alpha=Al(), params={'b': float(b)}, **kw)

    def _compute(self, state, params):
        return jnp.dot(self.a, state) + params['b'] - self.margin

    def _phi(self, state, params):
        return jnp.dot(self.a, state) + params['b']


class Filt(ConstraintBasedRTA):
    """an arbitrary stateful filter that fails at chosen calls"""

    def __init__(self, cons, fail_at, gains):
        self.cons, self.fail_at, self.gains, self.calls, self.log = cons, fail_at, gains, 0, []
        super().__init__()

    def _setup_constraints(self):
        return self.cons

    def _filter_control(self, rta_state, step_size, control_desired):
        return control_desired

    def filter_control(self, input_state, step_size, control_desired):
        k = self.calls
        self.calls += 1
        if k in self.fail_at:
            raise SolverError()
        u = np.asarray(control_desired, dtype=float) + self.gains[k % len(self.gains)]
        self.intervening = bool(self.gains[k % len(self.gains)] > 0)
        self.log.append((np.array(input_state), float(step_size), np.array(control_desired), u.copy(), self.intervening))
        return u


def scene(rng, rep):
    nx = int(rng.integers(1, 4))
    nc = int(rng.integers(1, 4))
    cons = OrderedDict()
    for i in range(nc):
        a = np.round(rng.uniform(-1, 1, nx), 2)
        cons[f'c{i}'] = Half(a, np.round(rng.uniform(0.2, 1.5), 2), np.round(rng.uniform(0, 0.3), 2), jit_enable=bool(rng.random() < 0.5), enabled=bool(rng.random() < 0.8))
    steps = int(rng.integers(1, 6))
    dt = float(np.round(rng.uniform(0.1, 1.0), 2))
    fail = {int(rng.integers(0, 8))} if rng.random() < 0.3 else set()
    gains = list(np.round(rng.uniform(-0.6, 0.6, 3), 2))
    rta = Filt(cons, fail, gains)
    for c in cons.values():
        if rng.random() < 0.5:
            c.params['b'] = float(np.round(rng.uniform(0.2, 1.5), 2))
    M = np.round(np.eye(nx) + rng.uniform(-0.3, 0.3, (nx, nx)), 2)
    Bm = np.round(rng.uniform(-1, 1, nx), 2)
    rep.set(nx=nx, steps=steps, dt=dt, fail=sorted(fail), gains=gains, M=M, B=Bm, cons={k: [c.a, c.params, c.margin, c.enabled] for k, c in cons.items()})
    return nx, cons, steps, dt, rta, M, Bm


def methods(base, rng, M, Bm, nx, draws):
    class T(base):
        def _get_initial_state(self):
            x = np.round(rng.uniform(-1.2, 1.2, nx), 2)
            draws.append(x.copy())
            return x

        def _pred_state(self, state, step_size, control):
            return M @ np.asarray(state, float) + step_size * Bm * float(control[0])

        def _desired_control(self, state):
            return np.array([0.1 * float(np.sum(state))])
    return T


def bad(cons, x, initial):
    """None when a value is too close to its limit to judge in single precision"""
    r = False
    for c in cons.values():
        v = float(np.dot(np.asarray(c.a, float), x)) + c.params['b']
        for w in ([v, v - c.margin] if initial else [v]):
            if abs(w) < 1e-4:
                return None
            r = bool(r or w < 0)
    return r


def simulate(cons, x, steps, dt, fail, gains, calls, M, Bm):
    if bad(cons, x, True) is not False:
        return bad(cons, x, True) and 'resample', calls
    for k in range(steps):
        if calls in fail:
            return False, calls + 1
        u = 0.1 * float(np.sum(x)) + gains[calls % len(gains)]
        calls += 1
        x = M @ x + dt * Bm * u
        b = bad(cons, x, False)
        if b is None:
            return None, calls
        if b:
            return False, calls
    return True, calls


@mon('C25', 'safety verdict', n=60)
def verdict(rng, rep, it):
    nx, cons, steps, dt, rta, M, Bm = scene(rng, rep)
    draws = []
    t = methods(ST.SafetyAssuranceSampleTestingModule, rng, M, Bm, nx, draws)((steps - 0.5) * dt, dt, 1, nx, rta=rta, n_points=3)
    for _ in range(4):
        x = np.round(rng.uniform(-1.2, 1.2, nx), 2)
        exp, calls = simulate(cons, x, steps, dt, rta.fail_at, rta.gains, rta.calls, M, Bm)
        if exp is None:
            return
        rep.set(x=x, calls=rta.calls)
        x0 = x.copy()
        r = t._simulate_episode(x)
        rep.check((r is None) if exp == 'resample' else (r is not None and bool(r) == exp), 'verdict of one episode', got=r, expected=exp)
        rep.same(x, x0, 'initial state is left alone')


@mon('C25', 'sample test report', n=20)
def report(rng, rep, it):
    nx, cons, steps, dt, rta, M, Bm = scene(rng, rep)
    if all(bad(cons, np.zeros(nx), True) is not False for _ in (0, )):
        return
    draws = []
    N = int(rng.integers(1, 5))
    tf = [lambda x: x, lambda x: 0.75 * x + 0.125][it % 2]

    class Transformed(methods(ST.SafetyAssuranceSampleTestingModule, rng, M, Bm, nx, draws)):
        def _transform_state(self, state):
            return tf(state)

    t = Transformed((steps - 0.5) * dt, dt, 1, nx, rta=rta, n_points=N)
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        t.run_sample_test(os.path.join(d, 'out'))
        rows = []
        for f in os.listdir(os.path.join(d, 'out')):
            with open(os.path.join(d, 'out', f), encoding='utf-8') as fh:
                rows += list(csv.reader(fh))
    exp, calls = [], 0
    for x in map(tf, draws):
        v, calls = simulate(cons, x, steps, dt, rta.fail_at, rta.gains, calls, M, Bm)
        if v is None:
            return
        if v != 'resample':
            exp.append([str(v), str(x.tolist())])
    rep.check(rows == exp and len(exp) == N, 'one truthful row per episode', got=rows, expected=exp)


@mon('C25', 'data tracking', n=40)
def tracking(rng, rep, it):
    nx, cons, steps, dt, rta, M, Bm = scene(rng, rep)
    rta.fail_at = set()
    if bad(cons, np.zeros(nx), True) is not False:
        return
    draws = []
    check = bool(it % 2)
    t = methods(ST.DataTrackingSampleTestingModule, rng, M, Bm, nx, draws)((steps - 0.5) * dt, dt, 1, nx, rta=rta, check_init_state=check)
    try:
        S, U, V = t.simulate_episode()
    except ValueError:
        rep.check(check and len(draws) >= 99 and all(bad(cons, x, True) is not False for x in draws), 'gives up only after many unsafe samples')
        return
    bs = [bad(cons, x, True) for x in draws]
    if None in bs:
        return
    if check:
        rep.check(not bs[-1] and all(bs[:-1]), 'starts from the first safe sample', draws=draws)
    else:
        rep.check(len(draws) == 1, 'one sample without the check')
    rep.check(S.shape == (steps + 1, nx) and U.shape == (steps + 1, 1) and V.shape == (steps + 1, ), 'one entry per step', shapes=[S.shape, U.shape, V.shape], steps=steps)
    rep.same(S[0], draws[-1], 'first state')
    rep.check(np.all(U[0] == 0) and not V[0], 'first control and flag')
    x = draws[-1]
    for k in range(steps):
        xin, d, des, u, iv = rta.log[k]
        rep.close(xin, x, 'filter sees the current state', 1e-6, 1e-6)
        rep.check(d == dt, 'filter sees the step size')
        rep.close(U[k + 1], u, 'applied control recorded in order', 1e-6, 1e-6)
        rep.check(bool(V[k + 1]) == iv, 'flag recorded in order', step=k)
        x = M @ x + dt * Bm * u[0]
        rep.close(S[k + 1], x, 'state recorded in order', 1e-6, 1e-6)


@mon('C25', 'initial samples', n=15)
def samples(rng, rep, it):
    nx, cons, steps, dt, rta, M, Bm = scene(rng, rep)
    lo = np.round(rng.uniform(-2, 0, nx), 2)
    hi = lo + np.round(rng.uniform(0.5, 2, nx), 2)
    rep.set(lo=lo, hi=hi)

    class L(ST.LatinHypercubeRandomSampleTestingModule):
        def _pred_state(self, state, step_size, control):
            return state

    class P(ST.ParametricRandomSampleTestingModule):
        def _pred_state(self, state, step_size, control):
            return state

    t = L(1.0, dt, 1, nx, rta=rta, n_points=4, bounds=np.array([lo, hi]), multiplier=2)
    xs = np.array([t._get_initial_state() for _ in range(8)])
    rep.check(xs.shape == (8, nx) and np.all(xs >= lo - 1e-9) and np.all(xs <= hi + 1e-9), 'samples lie in the requested box', xs=xs)
    rep.check(len({tuple(x) for x in xs}) == 8, 'samples are drawn once each')
    pdfs = [['uniform', 'constant'][int(rng.integers(0, 2))] for _ in range(nx)]
    q = P(1.0, dt, 1, nx, rta=rta, n_points=4, state_pdfs=pdfs, distribution_params=np.array([lo, hi]))
    for _ in range(4):
        x = q._get_initial_state()
        for k, d in enumerate(pdfs):
            rep.check(x[k] == lo[k] if d == 'constant' else lo[k] <= x[k] <= hi[k], 'samples follow the requested distribution', x=x, pdfs=pdfs)
