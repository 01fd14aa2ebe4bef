"""C14: the discrete-time optimizing filter"""
from contracts.asif_users import *      # noqa
from contracts.harness import _args
from contracts.p_asif import nslack, slack_no, exc_name
from contracts.p_simplex import flag


def model_minimize(eng, S):
    """scipy.optimize.minimize: records the problem; outcome is an arbitrary point with an arbitrary success flag"""
    def mini(e, a, kw):
        lib.assumed(e, 'scipy.optimize.minimize (SLSQP): returns a point x, a success flag and a message for the problem it is given')
        names = ('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options')
        d = dict(zip(names, a))
        d.update(kw)
        e.st.events.append(('min', d))
        x0 = lib.to_arr(e, e.force(d['x0']))
        S.x = vec('optx' + S.tag, simp(x0.shape[0]))
        return e.alloc(ObjCell(S.cls, {'success': z3.Bool('opt_success' + S.tag), 'message': 'no feasible point', 'x': e.new_np(S.x.with_kind('np')), 'fun': z3.Real('optf')}))
    S.tag = ''
    S.cls = user_class(eng, 'OptimizeResult', eng.get_class('run_time_assurance.constraint.DiscreteCBFConstraint'), {})
    lib.LIB['scipy.optimize.minimize'] = mini


def model_ode(eng, nx, nu):
    """base class of the differentiable solver, and the differential equation solver for a state of unknown size"""
    S = User()
    SB = 'safe_autonomy_simulation.dynamics.ODEDynamics'

    def init(e, a, kw):
        if set(kw) - {'integration_method', 'use_jax'} or len(a) > 1:
            raise Unsupported('ODEDynamics options')
        e.setattr(a[0], 'state_min', -float('inf'))
        e.setattr(a[0], 'state_max', float('inf'))

    def dot(e, a, kw):
        lib.assumed(e, 'safe_autonomy_simulation ODEDynamics.compute_state_dot: _compute_state_dot (no limits configured)')
        s, t, x, u = _args(e, a, kw, ('self', 't', 'state', 'control'))
        return e.call(e.getattr(s, '_compute_state_dot'), [t, x, u], {})

    lib.EXT_BASE[SB] = {'__init__': init, 'compute_state_dot': dot}
    Y, T = z3.Const('%Y', VEC), z3.Real('%T')
    FLOW = z3.Function('FLOW', z3.ArraySort(VEC, z3.ArraySort(R, VEC)), VEC, R, R, VEC)
    S.flow = lambda F, y0, t0, t1: FLOW(z3.Lambda([Y], z3.Lambda([T], F(Y, T))), y0, t0, t1)

    def odeint(e, a, kw):
        if set(kw) - {'rtol', 'atol', 'mxstep', 'hmax'}:
            raise Unsupported('odeint options')
        lib.assumed(e, 'jax.experimental.ode.odeint: row k is the solution at time ts[k] of dy/dt = f(y, t, ...) from y0 at ts[0]')
        f, y0, ts = a[0], lib.to_arr(e, e.force(a[1])), lib.to_arr(e, e.force(a[2]))
        n, nt = simp(y0.shape[0]), simp(ts.shape[0])
        d = lib.to_arr(e, e.force(e.call(f, [Arr((n, ), None, Y, 'jnp'), T] + list(a[3:]), {})))
        if not e.dim_eq(d.shape[0], n):
            raise lib.perr('TypeError', 'odeint: derivative has the wrong shape')
        dt_ = term(e, d)
        y0t = term(e, y0)
        row = lambda k: S.flow(lambda y, t: z3.substitute(dt_, (Y, y), (T, t)), y0t, zr(ts.at(0)), zr(ts.at(k)))
        return Arr((nt, n), lambda i, k: z3.Select(row(i), zi(k)), None, 'jnp', rowfn=lambda i: Arr((n, ), None, row(i), 'jnp'))

    lib.LIB['jax.experimental.ode.odeint'] = odeint
    return S


def discrete(eng, nu, nx, nc, lo, hi, slack, jit, exc, integrator=False, history=False):
    U = User()
    U.nu, U.nx, U.nc, U.lo, U.hi = nu, nx, nc, lo, hi
    U.S = User()
    model_minimize(eng, U.S)
    U.F = make_constraints(eng, nc, nx, slack=slack)
    U.NEXT = uf_vec('next_state', nx, VEC, R, VEC)

    def nxt(e, a, kw):
        _, s, dt, u = _args(e, a, kw, ('self', 'state', 'step_size', 'control'))
        return U.NEXT(term(e, s), zr(dt), term(e, u))

    base, user = 'DiscreteASIFModule', {'next_state_differentiable': nxt}
    if integrator:
        ode = model_ode(eng, nx, nu)
        DOT = uf_vec('state_dot', nx, R, VEC, VEC)

        def sdot(e, a, kw):
            _, t, s, u = _args(e, a, kw, ('self', 't', 'state', 'control'))
            return DOT(zr(t), term(e, s), term(e, u))

        base, user = 'DiscreteASIFIntegratorModule', {'compute_state_dot': sdot}

        def by_ode(s, dt, u):
            r = ode.flow(lambda y, t: term(eng, DOT(t, y, u)), s, z3.RealVal(0), zr(dt))
            return Arr((nx, ), lambda k: z3.Select(r, zi(k)))
        U.NEXT = by_ode
    U.cls = user_class(eng, 'UserDiscrete', eng.get_class(RA + base), {'_setup_constraints': lambda e, a, kw: U.F.dict, **user})
    U.obj = eng.call(U.cls, [], {'control_bounds_low': bound_value(eng, lo, 'lo', nu), 'control_bounds_high': bound_value(eng, hi, 'hi', nu), 'jit_enable': jit,
                                 'epsilon': z3.Real('eps'), 'control_dim': nu, 'solver_exception': exc})
    if history:
        # an earlier call with other values: whatever it leaves behind must not matter
        havoc_constraints(eng, U.F, 'then')
        U.S.tag = '_then'
        eng.assume(z3.Real('dt_then') > 0)
        eng.call(eng.getattr(U.obj, 'filter_control'), [eng.new_np(vec('st_then', nx)), z3.Real('dt_then'), eng.new_np(vec('u_then', nu))], {})
        U.S.tag = ''
        eng.st.events = []
    put(eng, U.obj, 'intervening', z3.Bool('iv'))
    havoc_constraints(eng, U.F)
    U.par, U.en = U.F.par_now, U.F.en_now
    return U


def _mk14(lo, hi, slack, jit, exc, integrator=False, history=False):
    @case('C14', f'{"later call of " if history else ""}DiscreteASIF{" integrator" if integrator else ""} problem, output and report low={lo} high={hi} slack={slack} jit={jit} exception={exc}',
          bvariants=((True, False), (True, True)) if slack else (None, ))
    def c(ctx):
        eng = ctx.engine()
        sl = ctx.variant if slack and ctx.bounded else slack
        nu, nx, nc = [ctx.dim(k, v) for k, v in zip(('nu', 'nx', 'nc'), (2, 1, 2))]
        dt = z3.Real('dt')

        def thunk():
            dims_pos(eng, (nu, 1), (nx, 1), (nc, 0))
            eng.assume(dt > 0)
            U = discrete(eng, nu, nx, nc, lo, hi, sl, jit, exc, integrator, history)
            u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx))
            r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, dt, u], {})
            return U, u, st, r

        for o in ctx.run(thunk, allow=('SolverError', )):
            ctx.at(o)
            ok = z3.Bool('opt_success')
            if o.kind == 'raise':
                ctx.require(o, 'exception only on solver failure, when configured', z3.And(z3.Not(ok), z3.BoolVal(exc)))
                continue
            U, u, st, r = o.value
            warns = [e for e in o.state.events if e[0] == 'warn']
            ctx.require(o, 'failure is announced', z3.Implies(z3.Not(ok), z3.BoolVal(not exc and len(warns) >= 1)))
            ctx.require(o, 'no announcement without failure', z3.Implies(ok, z3.BoolVal(not warns)))
            ms = [e[1] for e in o.state.events if e[0] == 'min']
            ctx.require(o, 'one solver call', len(ms) == 1)
            if len(ms) != 1:
                continue
            d = ms[0]
            ns = nslack(eng, U)
            n = sadd(nu, ns)
            uv, xv = vec('u', nu), vec('optx', n)
            # the objective: squared deviation of the control plus the weighted squares of the slack variables, up to a constant
            z = vec('z', n)
            zero = Arr((n, ), lambda k: z3.RealVal(0))
            args = eng.force(d.get('args', ()))
            args = tuple(args) if isinstance(args, tuple) else (args, )
            f = eng.force(d['fun'])
            val = [num(eng, eng.call(f, [eng.new_np(v)] + list(args), {})) for v in (z, zero)]
            half = z3.RealVal('1/2')
            want = lib._sum_fn(eng, nu, lambda k: sadd(smul(half, smul(z.at(k), z.at(k))), smul(-1, smul(uv.at(k), z.at(k)))))
            if slack:
                if ctx.bounded:
                    w = [wgt(eng, U, k) for k in range(ns)]
                    want = sadd(want, lib._sum_fn(eng, ns, lambda k: smul(smul(half, w[k]), smul(z.at(nu + k), z.at(nu + k)))))
                else:
                    fl = loops.make_filter(eng, z3.Int('%fj'), U.F.hs(z3.Int('%fj')), zi(nc))
                    want = sadd(want, lib._sum_fn(eng, ns, lambda k: smul(smul(half, U.F.sp(fl.sel(zi(k)))), smul(z.at(zi(nu) + zi(k)), z.at(zi(nu) + zi(k))))))
            ctx.require(o, 'objective is the squared deviation from the desired control (and the weighted slack)', eq(ssub(val[0], val[1]), want))
            # actuator limits, element by element
            bs = eng.force(d['bounds']) if d.get('bounds') is not None else None
            if ctx.bounded:
                ctx.require(o, 'one pair of limits per variable', num_of(eng, bs) == n)
                for kk in range(n):
                    pair = eng.force(eng.getitem(bs, kk))
                    l, h = [eng.force(eng.getitem(pair, t)) for t in (0, 1)]
                    isu = z3.BoolVal(kk < nu)
                    ctx.require(o, 'lower limit of each variable', lim_is(eng, l, isu, lo, lambda: b_at(U, 'lo', kk), -1))
                    ctx.require(o, 'upper limit of each variable', lim_is(eng, h, isu, hi, lambda: b_at(U, 'hi', kk), 1))
            # the conditions
            cons = eng.force(d['constraints'])
            if ctx.bounded:
                conditions_bounded(ctx, o, eng, U, cons, z, dt, nu, nc)
            ra = arr(eng, r)
            ctx.require(o, 'length kept', zi(ra.shape[0]) == zi(nu))
            ctx.forall(o, 'returns the control of the solver within the limits', nu, lambda k: eq(ra.at(k), clip(xv.at(k), b_at(U, 'lo', k), b_at(U, 'hi', k))))
            dev = lib._sum_fn(eng, nu, lambda k: smul(ssub(uv.at(k), xv.at(k)), ssub(uv.at(k), xv.at(k))))
            ctx.require(o, 'intervening exactly beyond the threshold', flag(eng, U.obj, 'intervening') == (zr(lib.ssqrt(dev)) > z3.Real('eps')))
        if not ctx.bounded:
            entries_unbounded(ctx, eng, thunk, lo, hi, slack, dt, nu, nc)
    return c


def conditions_bounded(ctx, o, eng, U, cons, z, dt, nu, nc):
    got = []
    for e in [eng.force(e) for e in seq(eng, cons)]:
        ctx.require(o, 'conditions are inequalities', z3.BoolVal(item(eng, e, 'type') == 'ineq'))
        got.append(num(eng, eng.call(item(eng, e, 'fun'), [eng.new_np(z)] + list(item(eng, e, 'args')), {})))
    specs = [(U.en(zi(q)), cond14(eng, U, q, z, dt, nu)) for q in range(nc)]
    for q, (en, s) in enumerate(specs):
        ctx.require(o, f'enabled condition {q} is handed to the solver', z3.Implies(en, z3.Or(z3.BoolVal(False), *[eq(g, s) for g in got])))
    for j, g in enumerate(got):
        ctx.require(o, f'solver condition {j} is an enabled condition', z3.Or(*[z3.And(en, eq(g, s)) for en, s in specs]))


def entries_unbounded(ctx, eng, thunk, lo, hi, slack, dt, nu, nc):
    """an arbitrary entry of the problem handed to the solver: a limit of a control, of a slack variable, a condition"""
    def entry(what):
        def th():
            U, u, st, r = thunk()
            ms = [e[1] for e in eng.st.events if e[0] == 'min']
            d = ms[0]
            ns = nslack(eng, U)
            bs, cons = eng.force(d['bounds']), eng.force(d['constraints'])
            nb, ncons = num_of(eng, bs), num_of(eng, cons)
            j = z3.Int('%entry')
            if what == 'condition':
                eng.assume(z3.And(j >= 0, j < zi(ncons)))
                e = eng.force(eng.getitem(cons, j))
                z = vec('z', sadd(nu, ns))
                val = num(eng, eng.call(item(eng, e, 'fun'), [eng.new_np(z)] + list(item(eng, e, 'args')), {}))
                return U, ns, item(eng, e, 'type'), val, z
            eng.assume(z3.And(j >= 0, j < zi(nu)) if what == 'control' else z3.And(j >= zi(nu), j < zi(nu) + zi(ns)))
            pair = eng.force(eng.getitem(bs, j))
            return U, ns, nb, eng.force(eng.getitem(pair, 0)), eng.force(eng.getitem(pair, 1)), ncons
        return th

    j = z3.Int('%entry')
    i = z3.Int('%fj')
    for o in ctx.run(entry('control'), allow=('SolverError', ), label=' limits'):
        ctx.at(o)
        if o.kind == 'raise':
            continue
        U, ns, nb, l, h, ncons = o.value
        ctx.require(o, 'one pair of limits per variable', zi(nb) == zi(nu) + zi(ns))
        ctx.require(o, 'lower limit of a control', lim_is(eng, l, z3.BoolVal(True), lo, lambda: b_at(U, 'lo', j), -1))
        ctx.require(o, 'upper limit of a control', lim_is(eng, h, z3.BoolVal(True), hi, lambda: b_at(U, 'hi', j), 1))
        fl = loops.make_filter(eng, i, U.en(i), zi(nc))
        ctx.require(o, 'one condition per enabled constraint', zi(ncons) == fl.total)
    if slack:
        for o in ctx.run(entry('slack'), allow=('SolverError', ), label=' slack limits'):
            ctx.at(o)
            if o.kind == 'raise':
                continue
            U, ns, nb, l, h, _ = o.value
            ctx.require(o, 'slack variables are free', z3.BoolVal(is_inf(l, -1) is True and is_inf(h, 1) is True))
    for o in ctx.run(entry('condition'), allow=('SolverError', ), label=' conditions'):
        ctx.at(o)
        if o.kind == 'raise':
            continue
        U, ns, ty, val, z = o.value
        ctx.require(o, 'conditions are inequalities', z3.BoolVal(ty == 'ineq'))
        fl = loops.make_filter(eng, i, U.en(i), zi(nc))
        sn = None
        if slack:
            ps = loops.psum(eng, i, z3.If(U.F.hs(i), z3.IntVal(1), z3.IntVal(0)))
            sn = lambda t: ps.f(zi(t))
        ctx.require(o, 'condition of the j-th enabled constraint', eq(val, cond14(eng, U, fl.sel(j), z, dt, nu, sn)))


def num_of(eng, v):
    return simp(eng.length(v))


def wgt(eng, U, k):
    r = z3.RealVal(0)
    for q in range(U.nc):
        r = z3.If(z3.And(U.F.hs(zi(q)), slack_no(eng, U, q) == k), U.F.sp(zi(q)), r)
    return r


def cond14(eng, U, q, z, dt, nu, sn=None):
    F = U.F
    zq = zi(q)
    p = U.par(zq)
    st = term(eng, vec('st', U.nx))
    zu = z if eng.dim_eq(z.shape[0], nu) else Arr((nu, ), lambda k: z.at(k))
    nx1 = term(eng, U.NEXT(st, dt, term(eng, zu)))
    h0, h1 = F.h(zq, p, st) + F.bias(zq), F.h(zq, p, nx1) + F.bias(zq)
    c = (h1 - h0) / dt + F.al(zq, h0)
    if sn is not None:
        return c - z3.If(F.hs(zq), zr(z.at(zi(nu) + sn(zq))), z3.RealVal(0))
    if not isinstance(simp(nslack(eng, U)), int) or not isinstance(q, int):
        return c
    s = z3.RealVal(0)
    for k in range(simp(nslack(eng, U))):
        s = z3.If(z3.And(F.hs(zq), slack_no(eng, U, q) == k), zr(z.at(nu + k)), s)
    return c - s


def num(eng, v):
    v = eng.force(v)
    if isinstance(v, (Arr, Ref)):
        v = arr(eng, v).at()
    return zr(v)


def seq(eng, v):
    if isinstance(v, (tuple, list)):
        return list(v)
    return [s.val for s in eng.cell(v).segs]


def item(eng, dct, key):
    return eng.force(eng.getitem(dct, key))


def lim_is(eng, v, isu, kind, want, sg):
    inf = is_inf(v, sg)
    if inf is not None:
        return z3.BoolVal(True) if kind == 'none' and inf else z3.Not(isu)
    return z3.And(isu, eq(v, want())) if kind != 'none' else z3.BoolVal(False)


def is_inf(v, sg):
    if isinstance(v, float):
        return v == sg * float('inf')
    return None


_mk14('scalar', 'vector', True, True, False)
_mk14('none', 'none', False, False, True)
_mk14('vector', 'list', False, True, True)
_mk14('list', 'none', True, False, False)
_mk14('none', 'vector', True, True, False, True)
_mk14('scalar', 'scalar', False, False, True, True)
_mk14('scalar', 'none', True, True, False, False, True)
_mk14('none', 'scalar', False, False, False, True, True)
