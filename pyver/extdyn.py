"""Assumed contracts of the external dynamics library and of jax's ODE integrator."""
from __future__ import annotations
import z3
from .values import *
from . import lib
from .core import ClassVal


CLS = []


def flat(a):
    n, m = simp(a.shape[0]), simp(a.shape[1])
    if not (isinstance(n, int) and isinstance(m, int)):
        raise Unsupported('dynamics matrix of symbolic size')
    return [zr(a.at(i, j)) for i in range(n) for j in range(m)], n, m


def linstep(method, A, Bm, dt, x, u):
    """state after dt of dx/dt = A x + B u from x with constant u (one explicit Euler step for 'Euler')"""
    fa, n, _ = flat(A)
    fb, _, m = flat(Bm)
    xs, us = [zr(x.at(k)) for k in range(n)], [zr(u.at(k)) for k in range(m)]
    if method == 'Euler':
        return [xs[i] + zr(dt) * (sum([fa[i * n + j] * xs[j] for j in range(n)], z3.RealVal(0)) + sum([fb[i * m + j] * us[j] for j in range(m)], z3.RealVal(0)))
                for i in range(n)]
    args = [z3.simplify(t, som=True) for t in fa + fb + [zr(dt)] + xs + us]
    return [z3.Function(f'LINSTEP_{n}_{m}_{k}', *([R] * (len(args) + 1)))(*args) for k in range(n)]


def _mk(eng, A, Bm, method):
    if not CLS:
        CLS.append(ClassVal('LinearODEDynamics', None, []))
        CLS[0].attrs['step'] = Native('LinearODEDynamics.step', _step)
    o = eng.alloc(ObjCell(CLS[0], {}))
    eng.setattr(o, 'A', A)
    eng.setattr(o, 'B', Bm)
    eng.setattr(o, '$method', method)
    return o


def _step(eng, a, kw):
    names = ('self', 'step_size', 'state', 'control')
    v = dict(zip(names, a))
    v.update(kw)
    if set(v) != set(names):
        raise Unsupported('dynamics.step arguments')
    s = v['self']
    A, Bm = lib.to_arr(eng, eng.getattr(s, 'A')), lib.to_arr(eng, eng.getattr(s, 'B'))
    x, u = lib.to_arr(eng, eng.force(v['state'])), lib.to_arr(eng, eng.force(v['control']))
    n, m = simp(A.shape[0]), simp(Bm.shape[1])
    if simp(x.shape[0]) != n or simp(u.shape[0]) != m:
        raise lib.perr('ValueError', 'dimension mismatch in the linear dynamics')
    lib.assumed(eng, 'safe_autonomy_simulation LinearODEDynamics.step: solution of dx/dt = A x + B u after the step (one Euler step for method Euler), inputs unchanged')
    r = linstep(eng.getattr(s, '$method'), A, Bm, eng.force(v['step_size']), x, u)
    xs = Arr((n, ), lambda k: r[simp(k)] if isinstance(simp(k), int) else _pick(r, k))
    xd = [z3.Function(f'LINDOT_{n}_{m}_{k}', *([R] * (len(r) + 1)))(*r) for k in range(n)]
    return (lib.wrap(eng, xs, 'jnp'), lib.wrap(eng, Arr((n, ), lambda k: _pick(xd, k)), 'jnp'))


def _pick(vs, k):
    k = simp(k)
    if isinstance(k, int):
        return vs[k]
    r = vs[-1]
    for j in range(len(vs) - 2, -1, -1):
        r = site(zi(k) == j, vs[j], r)
    return r


def _method(kw):
    m = kw.pop('integration_method', 'RK45')
    if m not in ('RK45', 'Euler'):
        raise Unsupported(f'integration method {m!r}')
    kw.pop('use_jax', None)
    return m


@lib.reg('safe_autonomy_simulation.dynamics.LinearODEDynamics', 'safe_autonomy_simulation.dynamics.dynamics.LinearODEDynamics')
def _lin(eng, a, kw):
    kw = dict(kw)
    A = kw.pop('A', a[0] if a else None)
    Bm = kw.pop('B', a[1] if len(a) > 1 else None)
    meth = _method(kw)
    if A is None or Bm is None or kw or len(a) > 2:
        raise Unsupported('LinearODEDynamics options')
    return _mk(eng, lib.to_arr(eng, eng.force(A)).with_kind('jnp'), lib.to_arr(eng, eng.force(Bm)).with_kind('jnp'), meth)


@lib.reg('safe_autonomy_simulation.entities.integrator.PointMassIntegratorDynamics')
def _pm(eng, a, kw):
    kw = dict(kw)
    m = eng.force(kw.pop('m', a[0] if a else 1))
    if kw.pop('mode', '1d') != '1d' or len(a) > 1:
        raise Unsupported('integrator mode')
    meth = _method(kw)
    if kw:
        raise Unsupported('integrator options')
    lib.assumed(eng, 'safe_autonomy_simulation PointMassIntegratorDynamics 1d: A = [[0, 1], [0, 0]], B = [[0], [1/m]] (no damping)')
    inv = lib.sdiv(1, m)
    return _mk(eng, Arr((2, 2), lambda i, j: _pick([0, 1, 0, 0], simp(2 * zi(i) + zi(j)) if is_z3(i) or is_z3(j) else 2 * i + j)),
               Arr((2, 1), lambda i, j: _pick([z3.RealVal(0), zr(inv)], i)), meth)


def flow(F, y0, t0, t1, ys, t):
    """state at t1 of dy/dt = F(y, t) from y0 at t0; ys, t: the variables of the terms F"""
    n = len(F)
    lams = [z3.Lambda(list(ys) + [t], z3.simplify(zr(f), som=True)) for f in F]
    args = lams + [z3.simplify(zr(v), som=True) for v in list(y0) + [t0, t1]]
    return [z3.Function(f'FLOW_{n}_{k}', *[x.sort() for x in args], R)(*args) for k in range(n)]


def flow_vars(n):
    return [z3.Real(f'%y{k}') for k in range(n)], z3.Real('%t')


@lib.reg('jax.experimental.ode.odeint')
def _odeint(eng, a, kw):
    f, y0, ts = a[0], lib.to_arr(eng, eng.force(a[1])), lib.to_arr(eng, eng.force(a[2]))
    if set(kw) - {'rtol', 'atol', 'mxstep', 'hmax'}:
        raise Unsupported('odeint options')
    n, nt = simp(y0.shape[0]), simp(ts.shape[0])
    if y0.ndim != 1 or not isinstance(n, int):
        raise Unsupported('odeint state of symbolic size')
    lib.assumed(eng, 'jax.experimental.ode.odeint: row k is the solution at time ts[k] of dy/dt = f(y, t, ...) from y0 at ts[0]')
    ys, t = flow_vars(n)
    r = lib.np_to_jnp(eng, eng.force(eng.call(f, [Arr((n, ), lambda k: _pick(ys, k)), t] + list(a[3:]), {})))
    d = lib.to_arr(eng, r)
    if d.ndim != 1 or simp(d.shape[0]) != n:
        raise lib.perr('TypeError', 'odeint: derivative has the wrong shape')
    F = [zr(d.at(k)) for k in range(n)]
    t0 = ts.at(0)
    cache = {}

    def at(i, k):
        i = simp(i)
        if isinstance(i, int) and i < 0:
            i = simp(zi(nt) + i)
        key = str(i)
        if key not in cache:
            cache[key] = flow(F, [y0.at(q) for q in range(n)], t0, ts.at(i), ys, t)
        return _pick(cache[key], k)

    return lib.wrap(eng, Arr((nt, n), at), 'jnp')
