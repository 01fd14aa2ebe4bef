"""optimizing filters against an independently assembled quadratic program"""
import warnings
from collections import OrderedDict
import numpy as np
import jax.numpy as jnp
import quadprog
from scipy.optimize import linprog
from monitor.common import mon
from monitor import ref
from monitor.m_base import alias_checks
from run_time_assurance.constraint import DirectInequalityConstraint
from run_time_assurance.rta.asif import ExplicitASIFModule, ImplicitASIFModule
from run_time_assurance.utils import SolverError, SolverWarning


class Direct(DirectInequalityConstraint):
    def ineq_weight(self, state, params):
        return params['w'] * (1 + 0.1 * state[0])

    def ineq_constant(self, state, params):
        return params['c'] + 0.1 * state[0]


class RefASIF:
    """rows (weight over [u, slack], constant, name):  weight . z >= constant"""

    def __init__(self, d, specs, direct, bounds, eps, implicit=None):
        self.d, self.specs, self.direct, self.b, self.eps, self.imp = d, specs, direct, bounds, eps, implicit
        self.slacked = [k for k, s in specs.items() if s.slack is not None]
        self.nu, self.ns = d.nu, len(self.slacked)

    def points(self, x, dt):
        d, (K, L, window, rb) = self.d, self.imp
        X, S = [x.copy()], [np.eye(d.nx)]
        cs = rb.cs
        s = np.eye(d.nx)
        for _ in range(int(window / dt)):
            u, cs = rb.gen(x, dt, cs)
            x = d.step(x, dt, ref.clip(u, self.b))
            ub = -K @ x + (0 if cs is None else cs)
            J = d.df(x) + d.dg_dot(x, ub) - d.g(x) @ K
            s = s + dt * (J @ s)
            X.append(x)
            S.append(s)
        return X, S

    def rows(self, x, dt=None):
        d = self.d
        out = []
        z = lambda w, sl=None: np.concatenate((w, [-1.0 if k == sl else 0.0 for k in self.slacked]))
        for k in range(self.nu):
            e = np.eye(self.nu)[k]
            if self.b['rlo'] is not None:
                out.append((z(e), self.b['rlo'][k], f'u{k + 1}_min'))
            if self.b['rhi'] is not None:
                out.append((z(-e), -self.b['rhi'][k], f'u{k + 1}_max'))
        f, g = d.f(x), d.g(x)
        pts = self.points(x, dt) if self.imp else None
        for name, s in self.specs.items():
            if not s.enabled:
                continue
            sl = name if s.slack is not None else None
            if not self.imp:
                v = ref.h(s.par, x) + s.bias
                if v < 0:
                    al = (10 * (s.c1 * v + s.c3 * v**3) if s.neg is None else s.neg[0] * v + s.neg[1] * v**3) + s.bias_negative
                else:
                    al = s.c1 * v + s.c3 * v**3
                gh = ref.dh(s.par, x)
                out.append((z(gh @ g, sl), -gh @ f - al, name))
            else:
                X, S = pts
                vals = [ref.h(s.par, p) + s.bias for p in X]
                for t in kept(s.sub, vals):
                    v = vals[t]
                    gh = ref.dh(s.par, X[t])
                    out.append((z(gh @ S[t] @ g, sl), -gh @ S[t] @ f - (s.c1 * v + s.c3 * v**3), name))
        for name, q in self.direct.items():
            if q.enabled:
                out.append((z(np.asarray(q.params['w'], float) * (1 + 0.1 * x[0])), float(q.params['c']) + 0.1 * x[0], name))
        return out

    def margin(self, rows):
        """largest t with  w.z >= c + t |w|  for every row (positive: strictly feasible)"""
        n = self.nu + self.ns
        if not rows:
            return 1.0
        A = np.array([np.concatenate((-w, [np.linalg.norm(w)])) for w, c, _ in rows])
        bb = np.array([-c for w, c, _ in rows])
        bad = [k for k in range(len(rows)) if np.linalg.norm(rows[k][0]) < 1e-7]
        for k in bad:
            if rows[k][1] > 1e-6:
                return -1.0
        r = linprog(np.concatenate((np.zeros(n), [-1.0])), A_ub=A, b_ub=bb, bounds=[(-50, 50)] * self.nu + [(-200, 200)] * self.ns + [(None, 1.0)])
        return r.x[-1] if r.status == 0 else -1.0

    def solve(self, u, rows):
        G = np.diag(np.concatenate((np.ones(self.nu), [np.sqrt(self.specs[k].slack) for k in self.slacked])))
        a = np.concatenate((u, np.zeros(self.ns)))
        C = np.array([w for w, _, _ in rows]).T if rows else np.zeros((self.nu + self.ns, 1))
        b = np.array([c for _, c, _ in rows]) if rows else np.zeros(1)
        r = quadprog.solve_qp(G, a, C, b, 0)
        return r[0], r[4]


def kept(sub, vals):
    n = len(vals)
    m = sub.get('num_check_all', -1)
    idx = list(range(0, max(m, 0))) + list(range(m + 1, n, sub.get('skip_length', 1)))
    idx = [t for t in idx]
    k = sub.get('subsample_constraints_num_least')
    if k is not None:
        idx = sorted(idx, key=lambda t: vals[t])[:k]
    if sub.get('keep_first'):
        idx = idx + [0]
    if sub.get('keep_last'):
        idx = idx + [n - 1]
    return idx


def make(rng, kind='explicit', jit=None, slack=0.4, nc=None, direct=True, sub=None, cs=None, bounds=None, window=None, negative=0.5, eps=None, **kw):
    d = ref.Dyn(rng, nx=int(rng.integers(1, 4)))
    specs = ref.rand_constraints(rng, d.nx, int(rng.integers(1, 4)) if nc is None else nc, slack=slack, sub=sub, negative=negative)
    b = bounds or ref.rand_bounds(rng, d.nu)
    for k in ('rlo', 'rhi'):
        if b[k] is not None:
            b[k] = np.broadcast_to(b[k] if len(b[k]) == d.nu else b[k][:1], d.nu)
    jit = bool(rng.random() < 0.6) if jit is None else jit
    eps = eps if eps is not None else float(rng.choice([1e-2, 0.1, 0.5, 1.0, 2.0]))
    dq = OrderedDict()
    if direct:
        for j in range(int(rng.integers(0, 3))):
            dq[f'dir_{"ba"[j]}'] = Direct(params={'w': jnp.array(np.round(rng.uniform(-1, 1, d.nu), 2)), 'c': float(np.round(rng.uniform(-1.5, -0.3), 2))},
                                          enabled=True)
    base = ExplicitASIFModule if kind == 'explicit' else ImplicitASIFModule

    class User(base):
        def _setup_constraints(self):
            return ref.build_constraints(specs)

        def _setup_direct_constraints(self):
            return dq

        def state_transition_system(self, state):
            return d.f(state, jnp)

        def state_transition_input(self, state):
            return d.g(state, jnp)

        if kind != 'explicit':

            def _pred_state(self, state, step_size, control):
                return d.step(state, step_size, control, jnp)

    args = dict(control_bounds_low=b['lo'], control_bounds_high=b['hi'], control_dim=d.nu, epsilon=eps, jit_enable=jit, **kw)
    imp = bc = None
    cfg = dict(kind=kind, jit=jit, bounds=b['kinds'], lo=b['lo'], hi=b['hi'], A=d.A, B=d.B, C=d.C, eps=eps,
               constraints={k: {**s.par, 'bias': s.bias, 'c1': s.c1, 'c3': s.c3, 'slack': s.slack, 'neg': s.neg, 'bias_negative': s.bias_negative, 'sub': s.sub}
                            for k, s in specs.items()}, direct={k: q.params for k, q in dq.items()})
    if kind != 'explicit':
        K, L, init, ck = ref.rand_backup(rng, d, cs)
        window = window if window is not None else float(rng.choice([0.0, 0.35, 0.45, 0.75, 1.1, 1.2]))
        bc = ref.Backup(jnp.array(K), jnp.array(L), init, jit_enable=False, kind=ck)
        args.update(backup_window=window, backup_controller=bc)
        imp = (K, L, window, ref.RefBackup(K, L, init, ck))
        cfg.update(K=K, L=L, init=init, window=window, cs=ck)
    m = User(**args)
    return d, specs, dq, b, bc, m, RefASIF(d, specs, dq, b, eps, imp), cfg


def stable(r, u, rows, rng, tol):
    """reference optimum and active names, or None where a perturbation of the size of float32 rounding changes them"""
    try:
        z, lam = r.solve(u, rows)
    except ValueError:
        return None
    for _ in range(3):
        pert = [(w * (1 + 1e-6 * rng.standard_normal(len(w))) + 1e-6 * rng.standard_normal(len(w)) * (w != 0), c + 1e-6 * rng.standard_normal() * (1 + abs(c)), n)
                for w, c, n in rows]
        try:
            z2, _ = r.solve(u + 1e-7 * rng.standard_normal(len(u)), pert)
        except ValueError:
            return None
        if np.max(np.abs(z2[:r.nu] - z[:r.nu])) > tol / 4:
            return None
    return z, lam


def call(m, x, dt, u):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        got = m.filter_control(x, dt, u)
    return got, [w for w in ws if issubclass(w.category, (SolverWarning, UserWarning)) and 'olver' in str(w.message)]


def drive(rng, rep, kind='explicit', steps=6, dynamic=False, span=1.5, dt=0.25, toggle=False, resets=False, **kw):
    d, specs, dq, b, bc, m, r, cfg = make(rng, kind, **kw)
    rep.set(**cfg)
    hist = []
    for step in range(steps):
        if dynamic and step:
            for s in specs.values():
                if rng.random() < 0.5:
                    ref.set_param(s, 'b', float(np.round(rng.uniform(-0.2, 1.5), 2)))
                if rng.random() < 0.3:
                    ref.set_enabled(s, not s.enabled)
            for q in dq.values():
                if rng.random() < 0.5:
                    q.params['c'] = float(np.round(rng.uniform(-1.5, -0.3), 2))
                if rng.random() < 0.3:
                    q.enabled = not q.enabled
            hist.append(('params', {k: (s.par['b'], s.enabled) for k, s in specs.items()}, {k: (q.params['c'], q.enabled) for k, q in dq.items()}))
        if toggle and rng.random() < 0.3:
            for s in specs.values():
                ref.set_enabled(s, bool(rng.random() < 0.7))
        if resets and rng.random() < 0.3:
            m.reset()
            hist.append(('reset', ))
        for _ in range(12):
            x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-span, span, d.nu), 2)
            if kind == 'explicit' and any(abs(ref.h(s.par, x) + s.bias) < 1e-4 for s in specs.values()):
                continue
            rows = r.rows(x, dt)
            if r.margin(rows) < 2e-3:
                continue
            st = stable(r, u, rows, rng, 4e-3)
            if st is not None:
                break
        else:
            continue
        x0, u0 = x.copy(), u.copy()
        hist.append(('call', x0, u0))
        rep.set(history=list(hist), dt=dt)
        got, ws = call(m, x, dt, u)
        rep.check(not ws, 'no solver warning when a control is admissible', warnings=[str(w.message) for w in ws])
        yield m, r, got, st, rows, x, x0, u, u0, bc, specs, b


def near(rep, got, st, r, what):
    """equal to the reference optimum after the actuator limits (which the optimum already satisfies)"""
    rep.close(got, st[0][:r.nu], what, 4e-3, 4e-3)


@mon('C09', 'explicit conditions', n=22)
def c09(rng, rep, it):
    for m, r, got, st, rows, *_ in drive(rng, rep, span=[1.5, 6.0][it % 2], steps=7):
        near(rep, got, st, r, 'control is the optimum over exactly the documented conditions')


@mon('C07', 'asif dynamic', n=9)
def c07(rng, rep, it):
    for m, r, got, st, rows, *_ in drive(rng, rep, ['explicit', 'explicit', 'implicit'][it % 3], dynamic=True, steps=9, span=4.0, jit=[True, True, True, False][it % 4]):
        near(rep, got, st, r, 'current parameters and enable flags are used')


@mon('C10', 'explicit report', n=22)
def c10(rng, rep, it):
    report(rng, rep, 'explicit', it)


@mon('C10', 'implicit report', n=8)
def c10i(rng, rep, it):
    report(rng, rep, 'implicit', it, sub=SUBS if it % 2 else None)


def report(rng, rep, kind, it, **kw):
    for m, r, got, st, rows, x, x0, u, u0, bc, specs, b in drive(rng, rep, kind, span=[0.8, 2.0, 6.0][it % 3], **kw):
        z, lam = st
        near(rep, got, st, r, 'admissible control closest to the desired one')
        dev = np.linalg.norm(z[:r.nu] - u0)
        if dev < 1e-9:
            rep.close(got, u0, 'admissible desired control returned unchanged', 1e-4, 1e-4)
        if abs(dev - r.eps) > 6e-3:
            rep.check(bool(m.intervening) == (dev > r.eps), 'intervening iff the deviation exceeds the threshold', deviation=dev, got=m.intervening)
        # active inequalities: positive multiplier; ambiguous ones are skipped
        if len({n for *_, n in rows}) and not ambiguous(rows, z, lam, r):
            act = {n for (w, c, n), l in zip(rows, lam) if l > 1e-5}
            rep.check(set(m.constraints_causing_intervention) == act and len(set(m.constraints_causing_intervention)) == len(m.constraints_causing_intervention),
                      'names exactly the constraints behind the active inequalities', got=m.constraints_causing_intervention, expected=sorted(act))


def ambiguous(rows, z, lam, r):
    for (w, c, n), l in zip(rows, lam):
        if 0 < l < 1e-3:
            return True
        sl = w @ z - c
        if l == 0 and sl < 1e-4 * (1 + abs(c)) and np.linalg.norm(w) > 1e-9:
            # tight but not active: only unambiguous when another active row carries the same name
            if not any(l2 > 1e-3 and n2 == n for (_, _, n2), l2 in zip(rows, lam)):
                return True
    return False


@mon('C11', 'infeasible', n=24)
def c11(rng, rep, it):
    exc = bool(it % 2)
    kind = ['explicit', 'explicit', 'implicit'][it % 3]
    nu_b = ref.rand_bounds(rng, 1, kinds=('scalar', ))
    d, specs, dq, b, bc, m, r, cfg = make(rng, kind, slack=0.0, bounds=nu_b, solver_exception=exc)
    rep.set(**cfg, solver_exception=exc)
    seen = 0
    for _ in range(40):
        if seen >= 4:
            break
        # force a conflict through the constraint offset
        for s in specs.values():
            ref.set_param(s, 'b', float(np.round(rng.uniform(-3, 0.5), 2)))
        x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-2, 2, d.nu), 2)
        rows = r.rows(x, 0.25)
        if r.margin(rows) > -1e-2:
            continue
        seen += 1
        rep.set(x=x, u=u, params={k: s.par for k, s in specs.items()})
        if exc:
            try:
                got, ws = call(m, x, 0.25, u)
            except SolverError:
                rep.check(True, '')
                continue
            rep.check(False, 'an infeasible program must raise SolverError when configured', got=got)
        else:
            try:
                got, ws = call(m, x, 0.25, u)
            except SolverError:
                rep.check(False, 'no exception when not configured')
            rep.check(any(issubclass(w.category, SolverWarning) for w in ws), 'a solver warning is issued')
            rep.close(got, ref.clip(u, b), 'falls back to the desired control limited to the actuator range', 1e-5, 1e-5)
            rep.check(m.intervening is not None, '')


@mon('C11', 'other errors', n=2)
def c11b(rng, rep, it):
    """an error of the solver other than infeasibility is not swallowed"""
    import run_time_assurance.rta.asif as mod
    d, specs, dq, b, bc, m, r, cfg = make(rng, 'explicit', slack=0.0, solver_exception=bool(it % 2), jit=False)
    # a non-finite problem makes the solver itself raise or return; replace its call by one that raises
    if not hasattr(mod, 'quadprog'):
        return
    orig = mod.quadprog.solve_qp

    def boom(*a, **k):
        raise ValueError('matrix G is not positive definite')

    mod.quadprog.solve_qp = boom
    try:
        if m.filter_control is None:
            return
        try:
            m.filter_control(np.zeros(d.nx), 0.25, np.zeros(d.nu))
        except SolverError:
            rep.check(False, 'another solver error is not reported as infeasibility')
        except ValueError:
            rep.check(True, '')
            return
        rep.check(False, 'another solver error is swallowed')
    finally:
        mod.quadprog.solve_qp = orig


@mon('C12', 'implicit conditions', n=14)
def c12(rng, rep, it):
    for m, r, got, st, rows, *_ in drive(rng, rep, 'implicit', span=[1.5, 6.0][it % 2], steps=5, direct=it % 3 == 0, dt=[0.25, 0.3][it % 2]):
        near(rep, got, st, r, 'control is the optimum over the conditions of every trajectory point')
        z, lam = st
        if not ambiguous(rows, z, lam, r):
            act = {n for (w, c, n), l in zip(rows, lam) if l > 1e-5}
            rep.check(set(m.constraints_causing_intervention) == act, 'rows attributed to the right constraint', got=m.constraints_causing_intervention,
                      expected=sorted(act))


@mon('C12', 'default integrator', n=4)
def c12b(rng, rep, it):
    """prediction by the library's own integrator: compare with an accurate integration"""
    from scipy.integrate import solve_ivp
    d, specs, dq, b, bc, m, r, cfg = make(rng, 'implicit', cs='none', direct=False, slack=0.0)
    base = type(m).__mro__[1]

    class U2(type(m)):
        def _pred_state(self, state, step_size, control):
            return base._pred_state(self, state, step_size, control)

    K, L, window, rb = r.imp
    m2 = U2(control_bounds_low=b['lo'], control_bounds_high=b['hi'], control_dim=d.nu, epsilon=r.eps, jit_enable=m.jit_enable, backup_window=window,
            backup_controller=bc)
    rep.set(**cfg)
    acc = lambda x, dt, u: solve_ivp(lambda t, y: d.f(y) + d.g(y) @ u, (0, dt), x, rtol=1e-9, atol=1e-9).y[:, -1]
    old = d.step
    for _ in range(4):
        x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-5, 5, d.nu), 2)
        d.step = acc
        rows = r.rows(x, 0.25)
        d.step = old
        if r.margin(rows) < 1e-2:
            continue
        st = stable(r, u, rows, rng, 1e-3)
        if st is None:
            continue
        rep.set(x=x, u=u)
        got, ws = call(m2, x, 0.25, u)
        rep.close(got, st[0][:r.nu], 'control is the optimum over the conditions of every trajectory point (default integrator)', 3e-2, 3e-2)


def SUBS(rng):
    o = {}
    if rng.random() < 0.6:
        o['num_check_all'] = int(rng.integers(0, 3))
    if rng.random() < 0.6:
        o['skip_length'] = int(rng.integers(1, 4))
    if rng.random() < 0.5:
        o['subsample_constraints_num_least'] = int(rng.integers(1, 4))
    o['keep_first'] = bool(rng.random() < 0.4)
    o['keep_last'] = bool(rng.random() < 0.4)
    return o


@mon('C13', 'subsampling', n=16)
def c13(rng, rep, it):
    for m, r, got, st, rows, *_ in drive(rng, rep, 'implicit', span=[2.0, 6.0][it % 2], steps=6, direct=False, slack=0.2, sub=SUBS if it % 5 else None, nc=[1, 2, 3][it % 3],
                                         window=float(rng.choice([1.0, 1.45, 1.75])), bounds=ref.rand_bounds(rng, 3, kinds=('none', 'scalar'))):
        near(rep, got, st, r, 'control is the optimum over the configured trajectory points')
        z, lam = st
        if not ambiguous(rows, z, lam, r):
            act = {n for (w, c, n), l in zip(rows, lam) if l > 1e-5}
            rep.check(set(m.constraints_causing_intervention) == act, 'rows attributed to the right constraint', got=m.constraints_causing_intervention,
                      expected=sorted(act))


@mon('C13', 'subsample rows', n=20)
def c13rows(rng, rep, it):
    """the row selection itself, on tagged rows"""
    ns = int(rng.integers(3, 8))
    d, specs, dq, b, bc, m, r, cfg = make(rng, 'implicit', direct=False, slack=0.0, sub=SUBS if it % 6 else None, nc=int(rng.integers(1, 4)), jit=True)
    if not hasattr(m, 'subsample_constraints'):
        return
    nc, w = len(specs), d.nu
    W = rng.standard_normal((nc * ns, w))
    c = np.arange(nc * ns, dtype=float)
    vals = np.array([rng.permutation(ns) + 0.1 * rng.random() for _ in range(nc)])
    rep.set(ns=ns, vals=vals, subs=[s.sub for s in specs.values()])
    W2, c2 = m.subsample_constraints(jnp.array(W), jnp.array(c), jnp.array(vals), ns)
    exp = []
    for i, s in enumerate(specs.values()):
        if s.sub.get('num_check_all', -1) >= ns:
            return
        exp.append([i * ns + t for t in kept(s.sub, list(vals[i]))])
    got = np.asarray(c2).astype(int).tolist()
    pos = 0
    for e in exp:
        g = got[pos:pos + len(e)]
        rep.check(sorted(g) == sorted(e), 'exactly the configured points of each constraint, constraints in order', got=got, expected=exp)
        pos += len(e)
    rep.check(pos == len(got), 'nothing else is kept', got=got, expected=exp)
    rep.close(W2, W[got], 'weights belong to the same points as constants', 1e-5, 1e-5)


@mon('C01', 'asif limits', n=8)
def c01(rng, rep, it):
    for m, r, got, st, rows, *_ in drive(rng, rep, ['explicit', 'implicit'][it % 2], span=5.0, steps=4):
        rep.close(got, ref.clip(got, r.b), 'control within limits', 1e-6, 1e-6)


@mon('C02', 'asif disabled', n=4)
def c02(rng, rep, it):
    d, specs, dq, b, bc, m, r, cfg = make(rng, ['explicit', 'implicit'][it % 2], cs='array')
    rep.set(**cfg)
    before = None if bc is None else ref.cs_value(bc)
    for _ in range(3):
        m.enable = False
        x, u = np.round(rng.uniform(-1, 1, d.nx), 2), np.round(rng.uniform(-5, 5, d.nu), 2)
        got = m.filter_control(x, 0.25, u)
        rep.same(got, u, 'disabled filter returns the desired control')
        rep.check(not m.intervening, 'disabled filter reports no intervention')
        if bc is not None:
            rep.close(ref.cs_value(bc), before, 'controller state untouched', 1e-7, 1e-7)


@mon('C03', 'asif frame', n=5)
def c03(rng, rep, it):
    for m, r, got, st, rows, x, x0, u, u0, bc, specs, b in drive(rng, rep, ['explicit', 'implicit'][it % 2], steps=4):
        alias_checks(rep, m, u, u0, x, x0, got)


@mon(['C18', 'C17'], 'implicit asif controller state', n=6)
def c18(rng, rep, it):
    for m, r, got, st, rows, x, x0, u, u0, bc, specs, b in drive(rng, rep, 'implicit', cs=['array', 'dict'][it % 2], steps=5, resets=True, span=4.0):
        near(rep, got, st, r, 'control after earlier look-aheads (and resets) equals that of a fresh filter')
        rep.close(ref.cs_value(bc), r.imp[3].init, 'look-ahead leaves the controller state as it was', 1e-6, 1e-6)


@mon('C17', 'explicit asif reset', n=5)
def c17(rng, rep, it):
    for m, r, got, st, rows, *_ in drive(rng, rep, 'explicit', steps=6, resets=True, span=4.0):
        near(rep, got, st, r, 'control after resets equals that of a fresh filter')


@mon('C19', 'asif info', n=5)
def c19(rng, rep, it):
    for m, r, got, st, rows, x, x0, u, u0, bc, specs, b in drive(rng, rep, ['explicit', 'implicit'][it % 2], steps=4, dynamic=True):
        v = m.generate_info().get('constraints_at_last_state')
        rep.check(v is not None and list(v) == list(specs), 'info lists every constraint as of the last state')
        for k, s in specs.items():
            rep.close(v[k], ref.h(s.par, x0), 'unbiased value at the state passed in', name=k)
