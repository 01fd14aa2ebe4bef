"""constraint selection, cascade, controller state, info record, building blocks, state wrappers"""
import importlib
from collections import OrderedDict
import numpy as np
import jax.numpy as jnp
from monitor.common import mon
from monitor import ref
from monitor.m_base import Raw
from run_time_assurance.rta.base import CascadedRTA, ConstraintBasedRTA
from run_time_assurance.rta.simplex import ExplicitSimplexModule
from run_time_assurance import constraint as C
from run_time_assurance.controller import RTABackupController


# ------------------------------------------------------------------ C08
@mon('C08', 'selection', n=14)
def selection(rng, rep, it):
    d = ref.Dyn(rng)
    specs = ref.rand_constraints(rng, d.nx, int(rng.integers(2, 6)))
    names = list(specs)
    b = ref.rand_bounds(rng, d.nu)
    K, L, init, ck = ref.rand_backup(rng, d, 'none')
    mode = it % 4
    if mode == 0:
        use, want = None, names
    else:
        k = int(rng.integers(1, len(names) + 1))
        use = [str(x) for x in rng.permutation(names)[:k]]
        want = [n for n in names if n in use]
        if mode == 2:
            use = use + ['nonexistent'] + use[:1]
        if mode == 3:
            use, want = [['nothing'], []][int(rng.integers(2))], []

    class User(ExplicitSimplexModule):
        def _setup_constraints(self):
            return ref.build_constraints(specs)

        def _pred_state(self, state, step_size, control):
            return d.step(state, step_size, control, jnp)

    jit = bool(it % 2)
    rep.set(names=names, use=use, jit=jit)
    mk = lambda: User(control_bounds_low=b['lo'], control_bounds_high=b['hi'], constraints_to_use=use, jit_enable=jit,
                      backup_controller=ref.Backup(jnp.array(K), jnp.array(L), init, kind=ck))
    if not want:
        try:
            mk()
        except ValueError:
            rep.check(True, '')
            return
        rep.check(False, 'selecting no constraint must fail')
    m = mk()
    rep.check(list(m.constraints) == want, 'exactly the named constraints are kept in their original order', got=list(m.constraints), expected=want)
    sub = OrderedDict((k, specs[k]) for k in want)
    r = ref.RefSimplex(d, sub, ref.RefBackup(K, L, init, ck), b, 0.0)
    rep.check(all(m.constraints[k] is specs[k].obj for k in want), 'kept constraints are the ones that were set up')
    for _ in range(5):
        x, u = np.round(rng.uniform(-1.2, 1.2, d.nx), 2), np.round(rng.uniform(-1.5, 1.5, d.nu), 2)
        if abs(r.margin(x, 0.25, u)) < 1e-3:
            continue
        rep.set(x=x, u=u)
        got = m.filter_control(x, 0.25, u)
        exp = r.filter(x, 0.25, u)
        rep.close(got, exp, 'only the selected constraints decide')
        rep.check(list(m.generate_info()['constraints_at_last_state']) == want, 'info lists the selected constraints')


# ------------------------------------------------------------------ C15
class Member(Raw):
    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.calls += 1
        self.seen = (np.array(input_state), step_size, np.array(control_desired))
        self.intervening = self.iv
        return np.asarray(control_desired) * self.raw[0] + self.raw[1]


@mon('C15', 'cascade', n=60)
def cascade(rng, rep, it):
    nu = int(rng.integers(1, 4))
    n = int(rng.integers(0, 5))
    b = ref.rand_bounds(rng, nu)
    mb = [ref.rand_bounds(rng, nu) for _ in range(n)]
    ms = [Member((float(rng.uniform(-1.5, 1.5)), np.round(rng.uniform(-1, 1, nu), 2)), bool(rng.random() < 0.3), control_bounds_low=mb[k]['lo'],
                 control_bounds_high=mb[k]['hi']) for k in range(n)]

    class Cas(CascadedRTA):
        def _setup_rta_list(self):
            return list(ms)

    c = Cas(control_bounds_low=b['lo'], control_bounds_high=b['hi'])
    for step in range(6):
        u, x = np.round(rng.uniform(-2, 2, nu), 2), rng.uniform(-1, 1, 3)
        for m in ms:
            m.iv = bool(rng.random() < 0.25)
            m.enable = bool(rng.random() < 0.85)
        u0, x0 = u.copy(), x.copy()
        rep.set(step=step, u=u0, members=[(m.raw, m.iv, m.enable) for m in ms])
        calls = [m.calls for m in ms]
        got = c.filter_control(x, 0.3, u)
        cur = u0
        for k, m in enumerate(ms):
            rep.same(m.control_desired, cur, 'each member receives the previous output') if m.control_desired is not None else None
            rep.check(m.control_desired is not None, 'every member is used')
            if m.enable:
                rep.check(m.calls == calls[k] + 1, 'each member runs once')
                rep.same(m.seen[0], x0, 'same state')
                rep.check(m.seen[1] == 0.3, 'same step size')
                cur = ref.clip(cur * m.raw[0] + m.raw[1], mb[k])
        rep.close(got, ref.clip(cur, b), 'last output limited to the cascade range', 1e-9, 1e-9)
        rep.check(bool(c.intervening) == any(m.iv and m.enable for m in ms), 'intervening iff some member intervenes', got=c.intervening)
        rep.same(u, u0, 'desired control unchanged')


@mon('C17', 'cascade reset', n=10)
def cascade_reset(rng, rep, it):
    from monitor import m_simplex
    parts = [m_simplex.make(rng, ['explicit', 'implicit'][k % 2], latch=1.0, cs='array', dims=(2, 2), bounds=dict(lo=-1.0, hi=1.0, rlo=-1.0, rhi=1.0, kinds=('s', 's')))
             for k in range(2)]
    ds = [p[0] for p in parts]
    if len({(d.nx, d.nu) for d in ds}) != 1:
        return

    class Cas(CascadedRTA):
        def _setup_rta_list(self):
            return [p[4] for p in parts]

    c = Cas()
    rs = [p[5] for p in parts]
    for _ in range(4):
        c.filter_control(np.round(rng.uniform(-1.2, 1.2, ds[0].nx), 2), 0.25, np.round(rng.uniform(-1.5, 1.5, ds[0].nu), 2))
    c.enable = False
    parts[0][4].enable = False
    c.reset()
    for r in rs:
        r.reset()
    rep.check(c.enable and not c.intervening and c.control_actual is None, 'cascade flags cleared')
    for p in parts:
        rep.check(p[4].enable and not p[4].intervening, 'members reset')
    for _ in range(4):
        x, u = np.round(rng.uniform(-1.2, 1.2, ds[0].nx), 2), np.round(rng.uniform(-1.5, 1.5, ds[0].nu), 2)
        m1 = rs[0].margin(x, 0.25, u)
        v = rs[0].filter(x, 0.25, u)
        m2 = rs[1].margin(x, 0.25, v)
        if min(abs(m1), abs(m2)) < 1e-3:
            return
        v = rs[1].filter(x, 0.25, v)
        rep.set(x=x, u=u)
        rep.close(c.filter_control(x, 0.25, u), v, 'after a reset the cascade behaves like a new one')


# ------------------------------------------------------------------ C18
class Ctrl(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        if controller_state is None:
            return 2.0 * state, None
        if isinstance(controller_state, dict):
            return state + controller_state['a'], {k: v + step_size * (j + 1) for j, (k, v) in enumerate(controller_state.items())}
        return state + controller_state, controller_state + step_size


def csnp(s):
    if s is None:
        return None
    if isinstance(s, dict):
        return {k: np.array(v) for k, v in s.items()}
    return np.array(s)


def cseq(rep, a, b, what):
    if b is None or a is None:
        rep.check(a is None and b is None, what, got=a, expected=b)
    elif isinstance(b, dict):
        rep.check(isinstance(a, dict) and list(a) == list(b), what)
        for k in b:
            rep.close(a[k], b[k], what, 1e-6, 1e-6)
    else:
        rep.close(a, b, what, 1e-6, 1e-6)


@mon('C18', 'controller save restore', n=30)
def saverestore(rng, rep, it):
    kind = ['array', 'dict', 'none'][it % 3]
    v = [np.round(rng.uniform(-1, 1, 2), 2) for _ in range(2)]
    init = {'array': jnp.array(v[0]), 'dict': {'a': jnp.array(v[0]), 'b': jnp.array(v[1])}, 'none': None}[kind]
    c = Ctrl(controller_state_initial=init, jit_enable=False)
    ref0 = csnp(init)
    cur, saved = csnp(init), None
    hist = []
    if kind == 'dict':
        init['a'] = jnp.array([9.0, 9.0])       # the caller's dictionary is not shared
    for _ in range(14):
        op = str(rng.choice(['gen', 'gen', 'save', 'restore', 'reset', 'peek', 'mutate']))
        hist.append(op)
        rep.set(kind=kind, history=list(hist))
        if op == 'gen':
            x = np.round(rng.uniform(-1, 1, 2), 2)
            u = c.generate_control(jnp.array(x), 0.5)
            e = 2 * x if cur is None else x + (cur['a'] if isinstance(cur, dict) else cur)
            rep.close(u, e, 'control uses the current controller state', 1e-6, 1e-6)
            if isinstance(cur, dict):
                cur = {k: w + 0.5 * (j + 1) for j, (k, w) in enumerate(cur.items())}
            elif cur is not None:
                cur = cur + 0.5
        elif op == 'peek':
            x = np.round(rng.uniform(-1, 1, 2), 2)
            c.generate_control_with_controller_state(jnp.array(x), 0.5, c.controller_state)
            c.jacobian(jnp.array(x), 0.5)
        elif op == 'save':
            c.save()
            saved = csnp(cur)
        elif op == 'restore':
            if 'save' in hist:
                c.restore()
                cur = csnp(saved)
        elif op == 'reset':
            c.reset()
            cur = csnp(ref0)
        elif op == 'mutate' and kind == 'dict':
            c.controller_state['a'] = c.controller_state['a'] + 1.0     # in-place change of the live state
            cur['a'] = cur['a'] + 1.0
        cseq(rep, c.controller_state, cur, 'controller state after ' + op)
    c.reset()
    cseq(rep, c.controller_state, ref0, 'reset restores the initial state')


# ------------------------------------------------------------------ C19
@mon('C19', 'info record', n=14)
def info(rng, rep, it):
    from monitor import m_simplex
    d, specs, b, bc, m, r, cfg = m_simplex.make(rng, ['explicit', 'implicit'][it % 2])
    rep.set(**cfg)
    for step in range(6):
        for s in specs.values():
            if rng.random() < 0.4:
                ref.set_param(s, 'b', float(np.round(rng.uniform(-0.5, 1.5), 2)))
            if rng.random() < 0.2:
                ref.set_enabled(s, not s.enabled)
        x, u = np.round(rng.uniform(-1.2, 1.2, d.nx), 2), np.round(rng.uniform(-1.5, 1.5, d.nu), 2)
        rep.set(x=x, step=step, params={k: s.par for k, s in specs.items()})
        m.filter_control(x, 0.25, u)
        i = m.generate_info()
        rep.check('constraints_at_last_state' in i and 'constraints' not in i, 'values marked as belonging to the last state', keys=list(i))
        v = i['constraints_at_last_state']
        rep.check(list(v) == list(specs), 'every constraint listed', got=list(v))
        for k, s in specs.items():
            rep.close(v[k], ref.h(s.par, x), 'unbiased value at the state passed in', name=k)
        y = np.round(rng.uniform(-1.2, 1.2, d.nx), 2)
        if rng.random() < 0.5:
            for s in specs.values():
                if rng.random() < 0.5:
                    ref.set_param(s, 'b', float(np.round(rng.uniform(-0.5, 1.5), 2)))
            m.enable = bool(rng.random() < 0.5)
            rep.set(y=y, params_at_update={k: s.par for k, s in specs.items()}, enabled_at_update=m.enable)
            m.update_constraint_values(y)
            m.enable = True
            i = m.generate_info()
            rep.check('constraints' in i and 'constraints_at_last_state' not in i, 'values marked as current', keys=list(i))
            for k, s in specs.items():
                rep.close(i['constraints'][k], ref.h(s.par, y), 'unbiased value at the new state', name=k)


# ------------------------------------------------------------------ C20
@mon('C20', 'constraint module', n=20)
def module(rng, rep, it):
    nx = int(rng.integers(1, 4))
    specs = ref.rand_constraints(rng, nx, 1)
    c = list(ref.build_constraints(specs, jit=bool(it % 2)).values())[0]
    s = list(specs.values())[0]
    for _ in range(4):
        x = np.round(rng.uniform(-1.5, 1.5, nx), 2)
        par = dict(s.par, b=float(np.round(rng.uniform(-1, 1), 2)))
        rep.set(x=x, par=par, bias=s.bias)
        rep.close(c(jnp.array(x), par), ref.h(par, x) + s.bias, 'enforced value is the function plus its bias', 1e-4, 1e-5)
        rep.close(c.compute(jnp.array(x), par), ref.h(par, x) + s.bias, 'compute is the function plus its bias', 1e-4, 1e-5)
        rep.close(c.phi(jnp.array(x), par), ref.h(par, x), 'reporting value carries no bias', 1e-4, 1e-5)
        rep.close(c.grad(jnp.array(x), par), ref.dh(par, x), 'gradient', 1e-4, 1e-5)
        v = float(np.round(rng.uniform(-2, 2), 2))
        a = s.c1 * v + s.c3 * v**3
        rep.close(c.alpha(v), a, 'strengthening function', 1e-5, 1e-5)
        rep.close(c.alpha_negative(v), 10 * a if s.neg is None else s.neg[0] * v + s.neg[1] * v**3, 'recovery strengthening function', 1e-5, 1e-5)


@mon('C20', 'polynomial', n=20)
def poly(rng, rep, it):
    n = int(rng.integers(0, 7))
    co = [float(np.round(rng.uniform(-2, 2), 2)) if rng.random() < 0.8 else int(rng.integers(-2, 3)) for _ in range(n)]
    p = C.PolynomialConstraintStrengthener(co if it else None)
    co = co if it else [0, 1]
    for x in [0.0, 1.0, -1.0, float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))]:
        rep.set(coefs=co, x=x)
        rep.close(p(x), sum(c * x**k for k, c in enumerate(co)), 'sum of coefficients times powers', 1e-9, 1e-9)
        rep.close(p(jnp.float32(x)), sum(c * x**k for k, c in enumerate(co)), 'sum of coefficients times powers (jax)', 1e-4, 1e-4)


@mon('C20', 'limit sets', n=20)
def limitsets(rng, rep, it):
    nx = int(rng.integers(1, 5))
    j = int(rng.integers(nx))
    lim = float(np.round(rng.uniform(0.1, 2), 2))
    bias = float(rng.choice([0, 0.3, -0.2]))
    for cls, val, inside in ((C.ConstraintMagnitudeStateLimit, lambda v, l: l * l - v * v, lambda v, l: abs(v) <= l),
                             (C.ConstraintMaxStateLimit, lambda v, l: l - v, lambda v, l: v <= l), (C.ConstraintMinStateLimit, lambda v, l: v - l, lambda v, l: v >= l)):
        c = cls(limit_val=lim, state_index=j, bias=bias)
        for l in (lim, lim + 0.5):
            for _ in range(4):
                x = np.round(rng.uniform(-3, 3, nx), 2)
                if abs(val(x[j], l)) < 1e-3:
                    continue
                rep.set(cls=cls.__name__, x=x, j=j, limit=l)
                p = dict(c.params)
                rep.check(set(p) == {'limit_val'} and abs(p['limit_val'] - lim) < 1e-9, 'limit is the parameter limit_val', params=p)
                p['limit_val'] = l
                h = float(c.phi(jnp.array(x), p))
                rep.check((h >= 0) == inside(x[j], l), 'non-negative exactly on the limit set', h=h)
                rep.close(c(jnp.array(x), p), h + bias, 'bias', 1e-5, 1e-5)
                g = np.asarray(c.grad(jnp.array(x), p))
                rep.check(all(abs(g[k]) < 1e-9 for k in range(nx) if k != j) and abs(g[j]) > 0 or x[j] == 0, 'depends only on the named component', g=g)


@mon('C20', 'higher order', n=8)
def hocbf(rng, rep, it):
    import jax
    d = ref.Dyn(rng)
    specs = ref.rand_constraints(rng, d.nx, 1)
    inner = list(ref.build_constraints(specs, jit=bool(it % 2)).values())[0]
    s = list(specs.values())[0]
    deg = 1 + it % 4
    al = ref.Alpha(float(np.round(rng.uniform(0.2, 1), 2)), float(np.round(rng.uniform(0, 0.3), 2)))
    bias = float(rng.choice([0, 0.1]))
    c = C.HOCBFConstraint(constraint=inner, relative_degree=deg, state_transition_system=lambda x: d.f(x, jnp), alpha=al, bias=bias)
    fx = lambda x, p: p['b'] + p['a'] @ x - p['q'] * (x @ x) + s.bias
    psi = fx
    for _ in range(deg - 1):
        psi = (lambda g: (lambda x, p: jax.grad(g)(x, p) @ d.f(x, jnp) + al.c1 * g(x, p) + al.c3 * g(x, p)**3))(psi)
    for _ in range(3):
        x = np.round(rng.uniform(-1, 1, d.nx), 2)
        p = dict(s.par, b=float(np.round(rng.uniform(-1, 1), 2)))
        rep.set(deg=deg, x=x, p=p)
        rep.close(c.phi(jnp.array(x), p), ref.h(p, x), 'reporting value is that of the original constraint', 1e-4, 1e-4)
        rep.close(c(jnp.array(x), p), float(psi(jnp.array(x), p)) + bias, 'repeated Lie derivative plus strengthening', 2e-3, 2e-3)
        rep.close(c.alpha(0.7), al(0.7), 'strengthening function kept', 1e-5, 1e-5)


# ------------------------------------------------------------------ C26
WRAPPERS = [('cwh.docking_2d', 'Docking2dState', ['x', 'y', 'x_dot', 'y_dot']),
            ('cwh.docking_3d', 'Docking3dState', ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot']),
            ('cwh.inspection_1v1', 'Inspection3dState', ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'sun_angle']),
            ('integrators.integrator_1d', 'Integrator1dDockingState', ['x', 'x_dot'])]


@mon('C26', 'wrappers', n=8)
def wrappers(rng, rep, it):
    for mod, cn, names in WRAPPERS:
        cls = getattr(importlib.import_module('run_time_assurance.zoo.' + mod), cn)
        n = len(names)
        props = [a for a in dir(cls) if isinstance(getattr(cls, a), property) and a != 'size']
        rep.check(set(names) <= set(props), f'{cn} has its components', props=props)
        for k, a in enumerate(names):
            v = np.round(rng.uniform(-5, 5, n), 3)
            src = jnp.array(v)
            w = cls(src)
            rep.set(cls=cn, component=a, vector=v)
            rep.check(w.size == n and len(w) == n, 'size')
            rep.close(w.vector, v, 'vector equals the wrapped array', 1e-6, 1e-6)
            rep.close(np.asarray(getattr(w, a)), v[k], 'component reads its own element', 1e-6, 1e-6)
            new = float(np.round(rng.uniform(-5, 5), 3))
            setattr(w, a, new)
            e = v.copy()
            e[k] = new
            rep.close(w.vector, e, 'assignment changes that element only', 1e-6, 1e-6)
            rep.close(src, v, 'wrapped array not shared', 1e-6, 1e-6)
            for k2, a2 in enumerate(names):
                rep.close(np.asarray(getattr(w, a2)), e[k2], f'component {a2} after assignment', 1e-6, 1e-6)
