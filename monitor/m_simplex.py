"""simplex filters against the reference"""
import numpy as np
import jax.numpy as jnp
from monitor.common import mon
from monitor import ref
from monitor.m_base import alias_checks
from collections import OrderedDict
from run_time_assurance.constraint import ConstraintModule, PolynomialConstraintStrengthener
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta.simplex import ExplicitSimplexModule, ImplicitSimplexModule


def make(rng, kind, jit=None, bounds=None, latch=None, nc=None, cs=None, dims=(None, None), **kw):
    d = ref.Dyn(rng, *dims)
    specs = ref.rand_constraints(rng, d.nx, int(rng.integers(1, 4)) if nc is None else nc)
    b = bounds or ref.rand_bounds(rng, d.nu)
    K, L, init, ck = ref.rand_backup(rng, d, cs)
    jit = bool(rng.random() < 0.6) if jit is None else jit
    latch = float(rng.choice([0, 0, 0.25, 0.5, 1.0])) if latch is None else latch
    window = float(rng.choice([0.0, 0.35, 0.45, 0.75, 1.2])) if kind == 'implicit' else None
    base = ExplicitSimplexModule if kind == 'explicit' else ImplicitSimplexModule

    class User(base):
        def _setup_constraints(self):
            return ref.build_constraints(specs)

        def _pred_state(self, state, step_size, control):
            return d.step(state, step_size, control, jnp)

    bc = ref.Backup(jnp.array(K), jnp.array(L), init, jit_enable=(ck == 'none' and rng.random() < 0.5), kind=ck)
    args = dict(control_bounds_low=b['lo'], control_bounds_high=b['hi'], backup_controller=bc, latch_time=latch, jit_enable=jit, **kw)
    if window is not None:
        args['backup_window'] = window
    m = User(**args)
    r = ref.RefSimplex(d, specs, ref.RefBackup(K, L, init, ck), b, latch, window)
    return d, specs, b, bc, m, r, dict(kind=kind, jit=jit, latch=latch, window=window, cs=ck, bounds=b['kinds'], lo=b['lo'], hi=b['hi'], A=d.A, B=d.B,
                                       C=d.C, K=K, L=L, init=init, constraints={k: {**s.par, 'bias': s.bias} for k, s in specs.items()})


def pick(rng, d, r, dt):
    """state and control whose verdict is not within float noise of the boundary"""
    for _ in range(40):
        x = np.round(rng.uniform(-1.2, 1.2, d.nx), 2)
        u = np.round(rng.uniform(-1.5, 1.5, d.nu), 2)
        if abs(r.margin(x, dt, u)) > 1e-3 and (r.le == 0 or abs(r.le - r.latch) > 1e-6 or True):
            return x, u
    return None


def drive(rng, rep, kind, steps=8, dynamic=False, resets=False, disable=False, dt=0.25, **kw):
    d, specs, b, bc, m, r, cfg = make(rng, kind, **kw)
    rep.set(**cfg)
    hist = []
    for step in range(steps):
        if dynamic and step:
            for k, s in specs.items():
                if rng.random() < 0.4:
                    ref.set_param(s, 'b', float(np.round(rng.uniform(-0.5, 1.5), 2)))
                if rng.random() < 0.3:
                    ref.set_enabled(s, not s.enabled)
            hist.append(('params', {k: (s.par['b'], s.enabled) for k, s in specs.items()}))
        if resets and rng.random() < 0.2:
            m.reset()
            r.reset()
            hist.append(('reset', ))
        if disable:
            m.enable = r.enable = bool(rng.random() < 0.7)
            hist.append(('enable', m.enable))
        p = pick(rng, d, r, dt)
        if p is None:
            continue
        x, u = p
        x0, u0 = x.copy(), u.copy()
        hist.append(('call', x0, u0))
        rep.set(history=list(hist), dt=dt)
        got = m.filter_control(x if rng.random() < 0.7 else jnp.array(x), dt, u)
        exp = r.filter(x0, dt, u0)
        yield m, r, got, exp, x, x0, u, u0, bc, specs


def base_checks(rep, m, r, got, exp, what='control'):
    rep.check(bool(m.intervening) == bool(r.iv), 'intervening flag', got=m.intervening, expected=r.iv)
    rep.close(got, exp, what)


@mon('C04', 'explicit', n=14)
def explicit(rng, rep, it):
    for m, r, got, exp, *_ in drive(rng, rep, 'explicit', latch=0.0):
        base_checks(rep, m, r, got, exp, 'backup control exactly when the predicted next state violates an enabled constraint')


@mon('C05', 'implicit', n=14)
def implicit(rng, rep, it):
    for m, r, got, exp, *_ in drive(rng, rep, 'implicit', latch=0.0):
        base_checks(rep, m, r, got, exp, 'backup control exactly when the look-ahead violates an enabled constraint')


@mon('C05', 'long look-ahead', n=6)
def long_window(rng, rep, it):
    """constant drift towards the limit: only one point far down the trajectory decides"""
    N, jit = [9, 33, 70, 110, 140, 257][it], bool(it % 2)
    dt = 0.125

    class Wall(ConstraintModule):
        def _compute(self, state, params):
            return params['b'] - state[0]

    wall = Wall(params={'b': 0.0}, alpha=PolynomialConstraintStrengthener([0, 1]), jit_enable=jit)
    bump = Wall(params={'b': 1e6}, alpha=PolynomialConstraintStrengthener([0, 1]), jit_enable=jit)

    class Drift(ImplicitSimplexModule):
        def _setup_constraints(self):
            return OrderedDict([('far', bump), ('wall', wall)])

        def _pred_state(self, state, step_size, control):
            return state + step_size * jnp.array([1.0, 0.0]) + step_size * jnp.array([0.0, 1.0]) * control[0]

    class Zero(RTABackupController):
        def _generate_control(self, state, step_size, controller_state=None):
            return jnp.array([-1.0]), None

    m = Drift(backup_window=N * dt, backup_controller=Zero(jit_enable=jit), jit_enable=jit)
    for side in (-0.5, 0.5, 1.5, -1.5):
        x0 = float(rng.integers(-8, 8)) * 0.25
        wall.params['b'] = x0 + (N + 1 + side) * dt
        rep.set(x=x0, dt=dt, steps=N, jit=jit, limit=wall.params['b'])
        got = m.filter_control(np.array([x0, 0.0]), dt, np.array([0.5]))
        on = side < 0
        rep.check(bool(m.intervening) == on, 'the last point of the look-ahead decides', got=m.intervening, expected=on)
        rep.close(got, [-1.0 if on else 0.5], 'backup control exactly when the look-ahead violates an enabled constraint')


@mon('C06', 'latch', n=14)
def latch(rng, rep, it):
    dt = [0.25, 0.0625][it // 2 % 2]
    for m, r, got, exp, *_ in drive(rng, rep, ['explicit', 'implicit'][it % 2], steps=14, latch=float(rng.choice([0.2, 0.25, 0.5, 0.6, 1.0])) * dt * 4,
                                    resets=True, dt=dt):
        base_checks(rep, m, r, got, exp, 'latched control')


@mon('C07', 'simplex dynamic parameters', n=10)
def dynamic(rng, rep, it):
    for m, r, got, exp, *_ in drive(rng, rep, ['explicit', 'implicit'][it % 2], steps=10, dynamic=True):
        base_checks(rep, m, r, got, exp, 'current parameters and enable flags are used')


@mon('C01', 'simplex limits', n=6)
def limits(rng, rep, it):
    for m, r, got, exp, *_ in drive(rng, rep, ['explicit', 'implicit'][it % 2]):
        rep.close(got, ref.clip(got, r.b), 'control within limits', 1e-6, 1e-6)


@mon('C02', 'simplex disabled', n=6)
def dis(rng, rep, it):
    for m, r, got, exp, x, x0, u, u0, bc, specs in drive(rng, rep, ['explicit', 'implicit'][it % 2], disable=True):
        if not m.enable:
            rep.same(got, u0, 'disabled: desired control returned')
            rep.check(not m.intervening, 'disabled: no intervention reported')
        else:
            base_checks(rep, m, r, got, exp, 'a disabled call leaves the later behaviour unchanged')
        if r.rb.cs is not None:
            rep.close(ref.cs_value(bc), r.rb.cs, 'controller state after a disabled call')


@mon('C03', 'simplex frame', n=6)
def frame(rng, rep, it):
    for m, r, got, exp, x, x0, u, u0, bc, specs in drive(rng, rep, ['explicit', 'implicit'][it % 2]):
        alias_checks(rep, m, u, u0, x, x0, got)


@mon('C18', 'simplex controller state', n=10)
def cs(rng, rep, it):
    for m, r, got, exp, x, x0, u, u0, bc, specs in drive(rng, rep, ['implicit', 'implicit', 'explicit'][it % 3], cs=['array', 'dict'][it % 2], resets=True, steps=10):
        base_checks(rep, m, r, got, exp)
        rep.close(ref.cs_value(bc), r.rb.cs, 'backup controller state advances only with applied control')


@mon('C17', 'simplex reset', n=16)
def reset(rng, rep, it):
    d, specs, b, bc, m, r, cfg = make(rng, ['implicit', 'explicit'][it % 2], latch=[1.0, 0.0][it // 2 % 2], cs=['array', 'dict', 'none'][it % 3])
    rep.set(**cfg)
    for _ in range(5):
        p = pick(rng, d, r, 0.25)
        if p:
            m.filter_control(p[0], 0.25, p[1])
    m.enable = bool(rng.random() < 0.5)
    m.reset()
    r.reset()
    rep.check(m.enable and not m.intervening and m.control_actual is None and m.control_desired is None, 'flags and records cleared')
    for _ in range(5):
        p = pick(rng, d, r, 0.25)
        if p:
            rep.set(x=p[0], u=p[1])
            base_checks(rep, m, r, m.filter_control(p[0], 0.25, p[1]), r.filter(p[0], 0.25, p[1]), 'after a reset the filter behaves like a new one')
