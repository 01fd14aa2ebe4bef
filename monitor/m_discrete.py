"""discrete optimizing filter against an independently assembled convex program"""
import warnings
import numpy as np
import jax.numpy as jnp
from scipy.optimize import minimize
from monitor.common import mon
from monitor import ref
from monitor.m_base import alias_checks
from run_time_assurance.rta.asif import DiscreteASIFModule, DiscreteASIFIntegratorModule
from run_time_assurance.utils import SolverError


def make(rng, integrator=False, slack=0.4, nc=None, bounds=None, **kw):
    d = ref.Dyn(rng, nx=int(rng.integers(1, 4)))
    specs = ref.rand_constraints(rng, d.nx, int(rng.integers(1, 4)) if nc is None else nc, slack=slack)
    for s in specs.values():
        s.par['q'] = abs(s.par['q'])        # concave: the admissible controls form a convex set
        if s.slack is not None:
            s.slack = float(rng.choice([10.0, 100.0]))
    b = bounds or ref.rand_bounds(rng, d.nu)
    for k in ('rlo', 'rhi'):
        if b[k] is not None:
            b[k] = np.broadcast_to(b[k] if len(b[k]) == d.nu else b[k][:1], d.nu)
    jit = bool(rng.random() < 0.6)
    eps = float(rng.choice([1e-2, 0.1]))

    if integrator:
        class User(DiscreteASIFIntegratorModule):
            def _setup_constraints(self):
                return ref.build_constraints(specs)

            def compute_state_dot(self, t, state, control):
                return d.f(state, jnp) + d.g(state, jnp) @ control
    else:
        class User(DiscreteASIFModule):
            def _setup_constraints(self):
                return ref.build_constraints(specs)

            def next_state_differentiable(self, state, step_size, control):
                return d.step(state, step_size, control, jnp)

    m = User(control_bounds_low=b['lo'], control_bounds_high=b['hi'], control_dim=d.nu, epsilon=eps, jit_enable=jit, **kw)
    cfg = dict(jit=jit, bounds=b['kinds'], lo=b['lo'], hi=b['hi'], A=d.A, B=d.B, C=d.C, eps=eps, integrator=integrator,
               constraints={k: {**s.par, 'bias': s.bias, 'c1': s.c1, 'c3': s.c3, 'slack': s.slack} for k, s in specs.items()})
    return d, specs, b, m, eps, cfg


def reference(d, specs, b, x, dt, u):
    """optimum (u, slack) by an independent solve; None when not clearly feasible and stable"""
    sl = [k for k, s in specs.items() if s.slack is not None]
    nu = d.nu
    W = np.concatenate((np.ones(nu), [s.slack for s in specs.values() if s.slack is not None]))
    tgt = np.concatenate((u, np.zeros(len(sl))))

    def con(s, name):
        v0 = ref.h(s.par, x) + s.bias

        def f(z):
            v1 = ref.h(s.par, d.step(x, dt, z[:nu])) + s.bias
            r = (v1 - v0) / dt + s.c1 * v0 + s.c3 * v0**3
            return r - (z[nu + sl.index(name)] if s.slack is not None else 0.0)
        return f

    cons = [con(s, k) for k, s in specs.items() if s.enabled]
    lo = -np.inf * np.ones(nu) if b['rlo'] is None else b['rlo']
    hi = np.inf * np.ones(nu) if b['rhi'] is None else b['rhi']
    bnds = list(zip(lo, hi)) + [(None, None)] * len(sl)
    # strictly feasible?
    n = nu + len(sl)
    r = minimize(lambda z: -z[-1] + 1e-6 * z[:n] @ z[:n], np.zeros(n + 1), method='SLSQP', bounds=bnds + [(None, 1.0)],
                 constraints=[{'type': 'ineq', 'fun': (lambda z, g=g: g(z[:n]) - z[-1])} for g in cons], options={'maxiter': 300})
    feas = min([r.x[-1]] + [g(r.x[:n]) for g in cons])
    best = None
    if feas > 5e-3:
        for z0 in (tgt, r.x[:n]):
            o = minimize(lambda z: 0.5 * (W * (z - tgt)) @ (z - tgt), np.clip(z0, [-np.inf if q[0] is None else q[0] for q in bnds], [np.inf if q[1] is None else q[1] for q in bnds]),
                         method='SLSQP', bounds=bnds, constraints=[{'type': 'ineq', 'fun': g} for g in cons], options={'maxiter': 500, 'ftol': 1e-12})
            if min([0.0] + [g(o.x) for g in cons]) < -1e-6 or not o.success:
                continue
            if best is None or o.fun < best.fun:
                best = o
    return feas, (None if best is None else best.x), cons


def call(m, x, dt, u):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        got = m.filter_control(x, dt, u)
    return got, [w for w in ws if 'olver' in str(w.message)]


def drive(rng, rep, steps=5, dynamic=False, span=1.5, integrator=False, **kw):
    d, specs, b, m, eps, cfg = make(rng, integrator, **kw)
    rep.set(**cfg)
    dt = 0.25
    hist = []
    if integrator:
        from scipy.integrate import solve_ivp
        d.step = lambda x, dt, u, xp=np: solve_ivp(lambda t, y: d.f(y) + d.g(y) @ u, (0, dt), x, rtol=1e-9, atol=1e-9).y[:, -1]
    for step in range(steps):
        if dynamic and step:
            for s in specs.values():
                if rng.random() < 0.5:
                    ref.set_param(s, 'b', float(np.round(rng.uniform(-0.2, 1.5), 2)))
                if rng.random() < 0.3:
                    ref.set_enabled(s, not s.enabled)
            hist.append(('params', {k: (s.par['b'], s.enabled) for k, s in specs.items()}))
        for _ in range(8):
            x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-span, span, d.nu), 2)
            feas, z, cons = reference(d, specs, b, x, dt, u)
            if z is not None:
                break
        else:
            continue
        x0, u0 = x.copy(), u.copy()
        hist.append(('call', x0, u0))
        rep.set(history=list(hist), dt=dt)
        got, ws = call(m, x, dt, u)
        if ws:      # the numerical solver may give up close to its tolerance: announced, nothing more to compare
            continue
        yield d, m, got, z, x, x0, u, u0, specs, b, eps


@mon('C14', 'discrete conditions', n=10)
def c14(rng, rep, it):
    for d, m, got, z, x, x0, u, u0, specs, b, eps in drive(rng, rep, dynamic=it % 2 == 1, span=[1.5, 4.0][it % 2], steps=6):
        rep.close(got, z[:d.nu], 'control is the optimum under the discrete barrier conditions', 6e-3, 6e-3)
        rep.close(got, ref.clip(got, b), 'within limits', 1e-6, 1e-6)
        dev = np.linalg.norm(z[:d.nu] - u0)
        if abs(dev - eps) > 8e-3:
            rep.check(bool(m.intervening) == (dev > eps), 'intervening iff the deviation exceeds the threshold', dev=dev)


@mon('C14', 'discrete integrator', n=2)
def c14i(rng, rep, it):
    for d, m, got, z, x, x0, u, u0, specs, b, eps in drive(rng, rep, steps=3, integrator=True, slack=0.0):
        rep.close(got, z[:d.nu], 'control is the optimum under the discrete barrier conditions (integrated)', 3e-2, 3e-2)


@mon('C14', 'discrete failure', n=10)
def c14f(rng, rep, it):
    exc = bool(it % 2)
    d, specs, b, m, eps, cfg = make(rng, slack=0.0, bounds=ref.rand_bounds(rng, 1, kinds=('scalar', )), solver_exception=exc)
    rep.set(**cfg, solver_exception=exc)
    seen = 0
    for _ in range(12):
        if seen >= 3:
            break
        for s in specs.values():
            ref.set_param(s, 'b', float(np.round(rng.uniform(-4, -1), 2)))
        x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-2, 2, d.nu), 2)
        # clearly infeasible: h is concave in the next state, bound the rate over the box by sampling its corners and gradient
        feas, z, cons = reference(d, specs, b, x, 0.25, u)
        g = np.linspace(-1, 1, 7)
        grid = np.stack(np.meshgrid(*[b['rlo'][0] + (b['rhi'][0] - b['rlo'][0]) * (g + 1) / 2] * d.nu), -1).reshape(-1, d.nu)
        best = max(min(c(np.array(p)) for c in cons) for p in grid)
        if max(best, feas) > -0.3:
            continue
        seen += 1
        rep.set(x=x, u=u, params={k: s.par for k, s in specs.items()})
        if exc:
            try:
                got, ws = call(m, x, 0.25, u)
            except SolverError:
                rep.check(True, '')
                continue
            rep.check(False, 'an infeasible program must raise SolverError when configured', got=got)
        else:
            got, ws = call(m, x, 0.25, u)
            rep.check(bool(ws), 'a solver warning is issued')
            rep.close(got, ref.clip(got, b), 'within limits', 1e-6, 1e-6)


@mon('C07', 'discrete dynamic', n=3)
def c07(rng, rep, it):
    for d, m, got, z, x, x0, u, u0, specs, b, eps in drive(rng, rep, dynamic=True, span=4.0, steps=6):
        rep.close(got, z[:d.nu], 'current parameters and enable flags are used', 6e-3, 6e-3)


@mon('C01', 'discrete limits', n=3)
def c01(rng, rep, it):
    for d, m, got, z, x, x0, u, u0, specs, b, eps in drive(rng, rep, span=4.0, steps=4):
        rep.close(got, ref.clip(got, b), 'within limits', 1e-6, 1e-6)


@mon('C03', 'discrete frame', n=2)
def c03(rng, rep, it):
    for d, m, got, z, x, x0, u, u0, specs, b, eps in drive(rng, rep, steps=3):
        alias_checks(rep, m, u, u0, x, x0, got)


@mon('C02', 'discrete disabled', n=2)
def c02(rng, rep, it):
    d, specs, b, m, eps, cfg = make(rng)
    m.enable = False
    for _ in range(3):
        x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-5, 5, d.nu), 2)
        rep.same(m.filter_control(x, 0.25, u), u, 'disabled filter returns the desired control')
        rep.check(not m.intervening, 'disabled filter reports no intervention')
