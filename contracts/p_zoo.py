"""C16 C21 C22 C23 C24 C27: built-in (zoo) filters"""
from contracts.users import *
from contracts.harness import _args       # noqa
from contracts.framework import *   # noqa
from contracts.p_simplex import flag
from pyver.values import Opaque

ZOO = 'run_time_assurance.zoo.'
I1, I3 = ZOO + 'cwh.inspection_1v1', ZOO + 'cwh.inspection_3d'
D2, D3, CU, G1 = ZOO + 'cwh.docking_2d', ZOO + 'cwh.docking_3d', ZOO + 'cwh.utils', ZOO + 'integrators.integrator_1d'
ZMODS = MODS + [I1, I3, D2, D3, CU, G1]


def rl(n):
    return z3.Real(n)


def amat(m, n, dim=3):
    """specification of the relative motion matrices"""
    A = [[0] * 6 for _ in range(6)]
    A[0][3] = A[1][4] = A[2][5] = 1
    A[3][0], A[3][4], A[4][3], A[5][2] = 3 * n * n, 2 * n, -2 * n, -(n * n)
    Bm = [[0] * 3 for _ in range(3)] + [[1 / m if r == c else 0 for c in range(3)] for r in range(3)]
    if dim == 2:
        k = [0, 1, 3, 4]
        return [[A[r][c] for c in k] for r in k], [[Bm[r][c] for c in (0, 1)] for r in k]
    return A, Bm


def dot(row, v):
    r = z3.RealVal(0)
    for a, b in zip(row, v):
        if not (isinstance(a, int) and a == 0):
            r = r + zr(a) * zr(b)
    return r


def els(eng, v, n):
    a = arr(eng, v)
    return [a.at(k) for k in range(n)]


# ------------------------------------------------------------------------------------------ C24 delta-v filter

@case(['C24'], 'SwitchingDeltaVLimitRTA.filter_control', bvariants=(0, 1))
def c24(ctx):
    eng = ctx.engine(ZMODS)
    m, n, lim, dt = rl('m'), rl('n'), rl('limit'), rl('dt')
    N = ctx.variant if ctx.bounded else z3.Int('N')
    K1 = [[rl(f'k1_{i}_{j}') for j in range(6)] for i in range(3)]
    K2 = [[rl(f'k2_{i}_{j}') for j in range(6)] for i in range(3)]

    def thunk():
        eng.assume(m > 0)
        if not ctx.bounded:
            eng.assume(N >= 0)
        cls = eng.get_class(I1 + '.SwitchingDeltaVLimitRTA')
        o = eng.call(cls, [], {'m': m, 'n': n, 'delta_v_limit': lim, 'n_steps': N, 'control_bounds_low': rl('lo'), 'control_bounds_high': rl('hi')})
        put(eng, o, 'K_1', eng.new_np(mat(K1)))
        put(eng, o, 'K_2', eng.new_np(mat(K2)))
        put(eng, o, 'error_integral', eng.new_np(vec('ei', 6)))
        put(eng, o, 'latched', z3.Bool('latched'))
        put(eng, o, 'intervening', z3.Bool('iv'))
        eng.assume(z3.Implies(z3.Bool('iv'), z3.Bool('latched')))
        u, st = eng.new_np(vec('u', 3)), eng.new_np(vec('st', 8))
        r = eng.call(eng.getattr(o, 'filter_control'), [st, dt, u], {})
        return o, u, st, r

    A, Bm = amat(m, n)
    ab = lambda t: z3.If(t >= 0, t, -t)

    def step(x, u):
        xd = [dot(A[k], x[:6]) + dot(Bm[k], u) for k in range(6)] + [-n, (ab(u[0]) + ab(u[1]) + ab(u[2])) / m]
        return [zr(x[k]) + xd[k] * dt for k in range(8)]

    def back(x, e):
        err = [0, 0, 0, x[3] - n / 2 * x[1], x[4] + 2 * n * x[0], 0]
        act = [-dot(K1[k], err) - dot(K2[k], e) for k in range(3)]
        return [clip(zr(t), -1, 1) for t in act], [zr(e[k]) + zr(err[k]) * dt for k in range(6)]

    X = [vec('st', 8).at(k) for k in range(8)]
    Us = [vec('u', 3).at(k) for k in range(3)]
    E0 = [vec('ei', 6).at(k) for k in range(6)]
    p0 = step(X, Us)
    if ctx.bounded:
        p, e, over = p0, E0, []
        for _ in range(N):
            ub, e = back(p, e)
            p = step(p, ub)
            over.append(p[7] > lim)
        exceeds = z3.Or(*over) if over else z3.BoolVal(False)
    else:
        i, P, E = z3.Int('%si'), z3.Const('%sp', VEC), z3.Const('%se', VEC)
        ub, e2 = back([z3.Select(P, k) for k in range(8)], [z3.Select(E, k) for k in range(6)])
        fE, fP = loops.recur(eng, [const_vec(E0).as_term(), const_vec(p0).as_term()],
                             [const_vec(e2).as_term(), const_vec(step([z3.Select(P, k) for k in range(8)], ub)).as_term()], i, [E, P])
        k = z3.Int('pk')
        Pk = [z3.Select(fP(k), j) for j in range(8)]
        nxt = step(Pk, back(Pk, [z3.Select(fE(k), j) for j in range(6)])[0])[7]      # state k + 1 of the prediction
        exceeds = z3.Exists([k], z3.And(k >= 0, k < N, nxt > lim))
    on = z3.Or(z3.Bool('latched'), exceeds)
    bk, e1 = back(X, E0)
    for o in ctx.run(thunk):
        ctx.at(o)
        obj, u, st, r = o.value
        lo, hi = rl('lo'), rl('hi')
        iv = flag(eng, obj, 'intervening')
        vec_eq(ctx, o, 'backup control exactly when intervening, else the desired control, limited', eng, r, lambda k: clip(z3.If(iv, bk[k], zr(Us[k])), lo, hi), 3)
        ctx.require(o, 'stays switched', flag(eng, obj, 'latched') == iv)
        vec_eq(ctx, o, 'integrator advances once per backup call and not otherwise', eng, eng.getattr(obj, 'error_integral'), lambda k: z3.If(iv, e1[k], zr(E0[k])), 6)
        vec_eq(ctx, o, 'state untouched', eng, st, lambda k: X[k], 8)
        vec_eq(ctx, o, 'desired control untouched', eng, u, lambda k: Us[k], 3)
        ctx.require(o, 'intervening exactly when latched or the prediction exceeds the limit', iv == on)


def mat(rows):
    rr, cc = len(rows), len(rows[0])

    def at(i, k):
        i, k = simp(i), simp(k)
        if isinstance(i, int) and isinstance(k, int):
            return rows[i][k]
        r = None
        for a in range(rr):
            for b in range(cc):
                r = rows[a][b] if r is None else site(z3.And(zi(i) == a, zi(k) == b), zr(rows[a][b]), zr(r))
        return r

    return Arr((rr, cc), at)


# ------------------------------------------------------------------------------------------ C16 multi-agent filter

def _mk16(extra, lo, hi):
    @case('C16', f'CombinedInspectionRTA.filter_control extra={extra} low={lo} high={hi}', bvariants=(1, 2, 3, 7))
    def c(ctx):
        eng = ctx.engine(ZMODS)
        N = ctx.variant if ctx.bounded else z3.Int('N')
        nx, nu = simp(6 * zi(N) + extra) if not isinstance(N, int) else 6 * N + extra, simp(3 * zi(N)) if not isinstance(N, int) else 3 * N
        OUT = uf_vec('agent_out', 3, I, VEC, R, VEC)
        IV = z3.Function('agent_iv', I, VEC, R, VEC, B)
        RM = eng.get_class(RB + 'RTAModule')

        def fc(e, a, kw):
            s, st, dt, u = _args(e, a, kw, ('self', 'input_state', 'step_size', 'control_desired'))
            q = e.getattr(s, '$seq')
            t = (zi(q), lib.to_arr(e, e.force(st)).as_term(), zr(dt), lib.to_arr(e, e.force(u)).as_term())
            e.setattr(s, 'intervening', IV(*t))
            e.setattr(s, '$seq', simp(zi(q) + 1))
            return e.new_np(OUT(*t))

        M = user_class(eng, 'Agent', RM, {'filter_control': fc})

        def thunk():
            if not isinstance(N, int):
                eng.assume(N >= 0)
            ag = eng.alloc(ObjCell(M, {'$seq': 0, 'intervening': z3.Bool('aiv')}))
            obj = eng.call(eng.get_class(I3 + '.CombinedInspectionRTA'), [], {'num_deputies': N, 'deputy_rta': ag, 'control_bounds_low': bound_value(eng, lo, 'lo', nu),
                                                                              'control_bounds_high': bound_value(eng, hi, 'hi', nu)})
            put(eng, obj, 'intervening', z3.Bool('iv'))
            u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx))
            r = eng.call(eng.getattr(obj, 'filter_control'), [st, z3.Real('dt'), u], {})
            return obj, u, st, r

        X, Us = vec('st', nx), vec('u', nu)

        def args(i):
            """k-th call: agent i's own state, then all others in order, then the shared rest"""
            own = lambda k: X.at(simp(zi(6) * zi(i) + zi(k)))
            x = Arr((nx, ), lambda k: site(zi(k) < 6, own(k), site(zi(k) < 6 * zi(i) + 6, X.at(simp(zi(k) - 6)), X.at(simp(zi(k))))))
            if isinstance(nx, int):
                x = const_vec([X.at(6 * i + k) for k in range(6)] + [X.at(k) for k in range(nx) if not 6 * i <= k < 6 * i + 6])
                ui = const_vec([Us.at(3 * i + k) for k in range(3)])
            else:
                ui = Arr((3, ), lambda k: Us.at(simp(3 * zi(i) + zi(k))))
            return zi(i), x.as_term(), z3.Real('dt'), ui.as_term()

        for o in ctx.run(thunk):
            ctx.at(o)
            obj, u, st, r = o.value
            ra = arr(eng, r)
            ctx.require(o, 'one result per control element', zi(ra.shape[0]) == zi(nu))
            if isinstance(N, int):
                ags = [(i, k) for i in range(N) for k in range(3)]
                for i, k in ags:
                    ctx.require(o, f'agent {i} element {k}', eq(ra.at(3 * i + k), clip(OUT(*args(i)).at(k), bound_at(lo, 'lo', 3 * i + k, nu), bound_at(hi, 'hi', 3 * i + k, nu))))
                ivs = z3.Or(*[IV(*args(i)) for i in range(N)])
            else:
                i = z3.Int('%ag')
                for k in range(3):
                    ctx.require(o, f'each agent, element {k}', eq(ra.at(3 * i + k), clip(OUT(*args(i)).at(k), bound_at(lo, 'lo', 3 * i + k, nu), bound_at(hi, 'hi', 3 * i + k, nu))),
                                extra=[i >= 0, i < N])
                ivs = z3.Exists([i], z3.And(i >= 0, i < N, IV(*args(i))))
            ctx.require(o, 'intervening exactly when some agent intervenes', flag(eng, obj, 'intervening') == ivs)
            ctx.forall(o, 'state untouched', nx, lambda k: eq(arr(eng, st).at(k), X.at(k)))
            ctx.forall(o, 'desired control untouched', nu, lambda k: eq(arr(eng, u).at(k), Us.at(k)))


for _e, _l, _h in ((0, 'none', 'none'), (1, 'scalar', 'scalar')):
    _mk16(_e, _l, _h)


# ------------------------------------------------------------------------------------------ C22 built-in constraints

def norm(vs):
    return lib.ssqrt(z3.simplify(sum([zr(v) * zr(v) for v in vs], z3.RealVal(0)), som=True))


def sq(t):
    return zr(lib.ssqrt(z3.simplify(zr(t), som=True)))


def dt3(a, b):
    return sum([zr(x) * zr(y) for x, y in zip(a, b)], z3.RealVal(0))


def evalc(ctx, eng, cls, kw, params, x, jit=True, bias=True):
    """enforced and reporting value of a built-in constraint for current parameters `params`"""
    k = dict(kw, jit_enable=jit)
    if bias:
        k['bias'] = z3.Real('bias')
    c = eng.call(eng.get_class(cls), [], k)
    p = eng.new_dict(list(params.items()))
    return eng.call(eng.getattr(c, 'compute'), [x, p], {}), eng.call(eng.getattr(c, 'phi'), [x, p], {}), c


def _mk22(name, cls, kw, params, nx, enforced, reported, pre=None, jit=True, defaults=True):
    @case('C22', f'{name} jit={jit}', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        X = [vec('x', nx).at(k) for k in range(nx)]
        P = {k: z3.Real(k) for k in params}

        def thunk():
            if pre:
                for h in pre(X, P):
                    eng.assume(h)
            v, phi, c = evalc(ctx, eng, cls, dict(kw, **{k: z3.Real(k + '_ctor') for k in params}), P, vec('x', nx), jit)
            return v, phi, c

        for o in ctx.run(thunk):
            ctx.at(o)
            v, phi, c = o.value
            e = enforced(X, P)
            ctx.require(o, 'enforced value is the documented one plus the bias', eq(scalar(eng, v), e + z3.Real('bias')))
            ctx.require(o, 'reported value is the plain requirement', eq(scalar(eng, phi), reported(X, P) if reported else e))
            for k in params:
                ctx.require(o, f'{k} taken from the constructor', eq(scalar(eng, eng.getitem(eng.getattr(c, 'params'), k)), z3.Real(k + '_ctor')))


def braking(dist, rate, a):
    """signed braking separation: sqrt of twice the braking acceleration times the distance, plus the separation rate"""
    return z3.If(dist >= 0, sq(2 * a * dist), -sq(-2 * a * dist)) + rate


def _coll(X, P):
    p, v = X[:3], X[3:6]
    r = zr(norm(p))
    return braking(r - P['collision_radius'], dt3(p, v) / r, P['a_max'])


def _rmax(X, P):
    p, v = X[:3], X[3:6]
    r = zr(norm(p))
    return braking(P['r_max'] - r, -(dt3(p, v) / r), P['a_max'])


def _dep(d):
    def f(X, P):
        p, v = [X[k] - X[6 * d + k] for k in range(3)], [X[3 + k] - X[6 * d + 3 + k] for k in range(3)]
        r = zr(norm(p))
        return braking(r - P['collision_radius'], dt3(p, v) / r, 2 * P['a_max'])
    return f


def _relvel(dim, delta='1/100000'):
    def nd(vs):
        return sq(sum([v * v for v in vs], z3.RealVal(0)) + z3.RealVal(delta))
    return lambda X, P: P['v0'] + P['v1'] * (nd(X[:dim]) - P['v0_distance']) - nd(X[dim:2 * dim])


_nz = lambda X, P: [norm(X[:3]) > 0]
for _j in (True, False):
    _mk22('chief collision', I1 + '.ConstraintCWHChiefCollision', {}, ('collision_radius', 'a_max'), 8, _coll, lambda X, P: zr(norm(X[:3])) - P['collision_radius'], _nz, _j)
    _mk22('maximum distance', I1 + '.ConstraintCWHMaxDistance', {}, ('r_max', 'a_max'), 8, _rmax, lambda X, P: P['r_max'] - zr(norm(X[:3])), _nz, _j)
    for _d in (1, 2):
        _mk22(f'deputy {_d} collision', I3 + '.ConstraintCWHDeputyCollision', {'deputy': _d}, ('collision_radius', 'a_max'), 19, _dep(_d),
              lambda X, P, d=_d: zr(norm([X[k] - X[6 * d + k] for k in range(3)])) - P['collision_radius'],
              lambda X, P, d=_d: [norm([X[k] - X[6 * d + k] for k in range(3)]) > 0], _j)
    _mk22('docking 2d velocity limit', D2 + '.ConstraintDocking2dRelativeVelocity', {}, ('v0', 'v1', 'v0_distance'), 4, _relvel(2), None, None, _j)
    _mk22('docking 3d velocity limit', D3 + '.ConstraintCWH3dRelativeVelocity', {}, ('v0', 'v1', 'v0_distance'), 8, _relvel(3), None, None, _j)
    _mk22('hocbf chief distance', I1 + '.HOCBFExampleChiefCollision', {}, ('collision_radius', ), 8, lambda X, P: zr(norm(X[:3])) - P['collision_radius'], None, None, _j)
    _mk22('one-dimensional stopping distance', G1 + '.ConstraintIntegrator1dDockingCollisionExplicit', {}, (), 2, lambda X, P: -2 * X[0] - X[1] * X[1], None, None, _j)
    _mk22('one-dimensional position', G1 + '.ConstraintIntegrator1dDockingCollisionImplicit', {}, (), 2, lambda X, P: -X[0], None, None, _j)


# ------------------------------------------------------------------------------------------ C21 dynamics

def mat_eq(ctx, o, what, eng, v, rows):
    a = arr(eng, v)
    rr, cc = len(rows), len(rows[0])
    ok = a.ndim == 2
    ctx.require(o, what + ' shape', z3.And(zi(a.shape[0]) == rr, zi(a.shape[1]) == cc) if ok else z3.BoolVal(False))
    if ok:
        ctx.require(o, what, z3.And(*[eq(a.at(i, k), rows[i][k]) for i in range(rr) for k in range(cc)]))


def _mk21m(dim):
    @case('C21', f'generate_cwh_matrices {dim}d', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        m, n = rl('m'), rl('n')

        def thunk():
            eng.assume(m > 0)
            return eng.call(eng.mod_get(eng.module(CU), 'generate_cwh_matrices'), [m, n], {'mode': f'{dim}d'})

        A, Bm = amat(m, n, dim)
        for o in ctx.run(thunk):
            ctx.at(o)
            a, b = o.value
            mat_eq(ctx, o, 'A', eng, a, A)
            mat_eq(ctx, o, 'B', eng, b, Bm)


for _d in (2, 3):
    _mk21m(_d)


def ddt(eng, t, v):
    """time derivative of a result term"""
    from pyver.deriv import Diff
    return zr(Diff(eng, {v.get_id(): (v, None)}).d(zr(t), None)) if is_z3(t) else z3.RealVal(0)


@case('C21', 'DiscreteInspection1v1RTA.discrete_a_mat / discrete_b_mat', modes='U')
def c21d(ctx):
    eng = ctx.engine(ZMODS)
    m, n, t = rl('m'), rl('n'), rl('dt')

    def thunk():
        eng.assume(z3.And(m > 0, n > 0, t > 0))
        o = eng.call(eng.get_class(I1 + '.DiscreteInspection1v1RTA'), [], {'m': m, 'n': n})
        return eng.call(eng.getattr(o, 'discrete_a_mat'), [t], {}), eng.call(eng.getattr(o, 'discrete_b_mat'), [t], {})

    A, Bm = amat(m, n)
    for o in ctx.run(thunk):
        ctx.at(o)
        a, b = [arr(eng, x) for x in o.value]
        ctx.require(o, 'shapes', z3.BoolVal(tuple(a.shape) == (6, 6) and tuple(b.shape) == (6, 3)))
        at0 = lambda e: z3.substitute(zr(e), (t, z3.RealVal(0)))
        zero = [lib.SIN(z3.RealVal(0) * n) == 0, lib.COS(z3.RealVal(0) * n) == 1, lib.SIN(n * 0) == 0, lib.COS(n * 0) == 1, lib.SIN(z3.RealVal(0)) == 0, lib.COS(z3.RealVal(0)) == 1]
        Pa = [[a.at(i, k) for k in range(6)] for i in range(6)]
        Pb = [[b.at(i, k) for k in range(3)] for i in range(6)]
        ctx.require(o, 'no step: identity', z3.And(*[z3.simplify(at0(Pa[i][k])) == (1 if i == k else 0) for i in range(6) for k in range(6)]), lemmas=zero)
        ctx.require(o, 'no step: no control effect', z3.And(*[z3.simplify(at0(Pb[i][k])) == 0 for i in range(6) for k in range(3)]), lemmas=zero)
        for i in range(6):
            ctx.require(o, f'd/dt of the state matrix is A times it, row {i}', z3.And(*[
                ddt(eng, Pa[i][k], t) == dot(A[i], [Pa[j][k] for j in range(6)]) for k in range(6)]))
            ctx.require(o, f'd/dt of the control matrix is A times it plus B, row {i}', z3.And(*[
                ddt(eng, Pb[i][k], t) == dot(A[i], [Pb[j][k] for j in range(6)]) + zr(Bm[i][k]) for k in range(3)]))


def phi_spec(n, t):
    """exact solution of the unforced relative motion (shown to be one by the case above and 'closed form solves the dynamics')"""
    c, s = lib.COS(z3.simplify(n * t)), lib.SIN(z3.simplify(n * t))
    z = z3.RealVal(0)
    return [[4 - 3 * c, z, z, s / n, 2 * (1 - c) / n, z],
            [6 * (s - n * t), z + 1, z, -2 * (1 - c) / n, (4 * s - 3 * n * t) / n, z],
            [z, z, c, z, z, s / n],
            [3 * n * s, z, z, c, 2 * s, z],
            [-6 * n * (1 - c), z, z, -2 * s, 4 * c - 3, z],
            [z, z, -n * s, z, z, c]]


@case('C21', 'closed form solves the dynamics (lemma)', modes='U')
def c21l(ctx):
    eng = ctx.engine(ZMODS)
    n, t = rl('n'), rl('t')
    A, _ = amat(z3.RealVal(1), n)
    for o in ctx.run(lambda: eng.assume(n > 0)):
        ctx.at(o)
        P = phi_spec(n, t)
        zero = [lib.SIN(z3.RealVal(0)) == 0, lib.COS(z3.RealVal(0)) == 1]
        ctx.require(o, 'starts at the identity', z3.And(*[z3.simplify(z3.substitute(P[i][k], (t, z3.RealVal(0)))) == (1 if i == k else 0) for i in range(6) for k in range(6)]),
                    lemmas=zero)
        for i in range(6):
            ctx.require(o, f'row {i}', z3.And(*[ddt(eng, P[i][k], t) == dot(A[i], [P[j][k] for j in range(6)]) for k in range(6)]))


def sqrt_args(e):
    from pyver.prove import subterms
    out = {}
    for t in subterms([e]):
        if z3.is_app(t) and t.decl().name() == 'sqrt':
            out[t.get_id()] = t
    return list(out.values())


def norm_eq(ctx, o, what, value, sq_arg, rest):
    """value == sqrt(sq_arg) + rest, with the radicand compared first"""
    v = zr(value)
    ss = sqrt_args(v)
    lem = []
    if len(ss) == 1:
        g = ss[0].arg(0) == sq_arg
        ctx.require(o, what + ' (radicand)', g)
        lem = [g]
    ctx.require(o, what, v == lib.SQRT(sq_arg) + rest, extra=lem)


def _mk21f(name, cls, dep):
    @case(['C21', 'C22'], f'{name} closed-form trajectory', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        n, t, Rr = rl('n'), rl('t'), rl('R')
        nx = 19 if dep else 8
        X = [vec('x', nx).at(k) for k in range(nx)]

        def thunk():
            eng.assume(z3.And(n > 0, rl('m') > 0))
            kw = {'collision_radius': Rr, 'm': rl('m'), 'n': n, 'dt': 1, 'steps': 100}
            if dep:
                kw['deputy'] = dep
            o = eng.call(eng.get_class(cls), [], kw)
            return eng.call(eng.getattr(o, 'get_future_state'), [vec('x', nx), t, Rr], {})

        P = phi_spec(n, t)
        d = [X[k] - X[6 * dep + k] if dep else X[k] for k in range(6)]
        f = [dot(P[i], d) for i in range(3)]
        for o in ctx.run(thunk):
            ctx.at(o)
            norm_eq(ctx, o, 'distance of the coasting spacecraft minus the radius', scalar(eng, o.value), dt3(f, f), -Rr)


_mk21f('ConstraintPassivelySafeManeuver', I1 + '.ConstraintPassivelySafeManeuver', 0)
for _d in (1, 2):
    _mk21f(f'ConstraintPSMDeputy {_d}', I3 + '.ConstraintPSMDeputy', _d)


def aug(m, n, sun, x, u=None):
    """derivative of [relative motion, sun angle, accumulated delta-v]"""
    A, Bm = amat(m, n)
    ab = lambda t: z3.If(t >= 0, t, -t)
    r = [dot(A[k], x[:6]) + (dot(Bm[k], u) if u is not None else 0) for k in range(6)]
    return r + [zr(sun), (sum([ab(q) for q in u], z3.RealVal(0)) / m if u is not None else z3.RealVal(0))]


def _pre21(eng):
    eng.assume(z3.And(rl('m') > 0, rl('n') > 0, rl('dt') > 0))


@case('C21', 'Inspection1v1RTA dynamics', modes='U')
def c21i(ctx):
    eng = ctx.engine(ZMODS)
    m, n, sun, dt, t = rl('m'), rl('n'), rl('sun'), rl('dt'), rl('time')
    X, Us = [vec('x', 8).at(k) for k in range(8)], [vec('u', 3).at(k) for k in range(3)]

    def thunk():
        _pre21(eng)
        o = eng.call(eng.get_class(I1 + '.Inspection1v1RTA'), [], {'m': m, 'n': n, 'sun_vel': sun})
        g = lambda f, *a: eng.call(eng.getattr(o, f), list(a), {})
        x, u = vec('x', 8), vec('u', 3)
        return (g('compute_state_dot', x, t, u), g('compute_state_dot_cwh', vec('x', 6), t, u), g('state_transition_system', x),
                g('state_transition_input', x), g('get_sun_vector', x))

    d = aug(m, n, sun, X, Us)
    f = aug(m, n, sun, X)
    _, Bm = amat(m, n)
    for o in ctx.run(thunk):
        ctx.at(o)
        xd, cwh, fx, gx, sv = o.value
        vec_eq(ctx, o, 'state derivative', eng, xd, lambda k: d[k], 8)
        vec_eq(ctx, o, 'state derivative without sun and fuel', eng, cwh, lambda k: d[k], 6)
        vec_eq(ctx, o, 'f', eng, fx, lambda k: f[k], 8)
        mat_eq(ctx, o, 'g', eng, gx, Bm + [[0, 0, 0], [0, 0, 0]])
        vec_eq(ctx, o, 'sun vector follows the sun angle', eng, sv, lambda k: [-lib.COS(X[6]), -lib.SIN(X[6]), z3.RealVal(0)][k], 3)


def _mk21p(fn, nx):
    @case('C21', f'Inspection1v1RTA.{fn}', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        m, n, sun, dt = rl('m'), rl('n'), rl('sun'), rl('dt')
        X, Us = [vec('x', nx).at(k) for k in range(nx)], [vec('u', 3).at(k) for k in range(3)]

        def thunk():
            _pre21(eng)
            o = eng.call(eng.get_class(I1 + '.Inspection1v1RTA'), [], {'m': m, 'n': n, 'sun_vel': sun})
            return eng.call(eng.getattr(o, fn), [vec('x', nx), dt, vec('u', 3)], {})

        ys, t = extdyn.flow_vars(nx)
        want = extdyn.flow(aug(m, n, sun, ys, Us)[:nx], X, z3.RealVal(0), dt, ys, t)
        for o in ctx.run(thunk):
            ctx.at(o)
            vec_eq(ctx, o, 'solution of the dynamics after one step', eng, o.value, lambda k: want[k], nx)


_mk21p('_pred_state', 8)
_mk21p('_pred_state_cwh', 6)


@case('C21', 'DiscreteInspection1v1RTA.next_state_differentiable', modes='U')
def c21n(ctx):
    eng = ctx.engine(ZMODS)
    m, n, sun, dt = rl('m'), rl('n'), rl('sun'), rl('dt')
    X, Us = [vec('x', 8).at(k) for k in range(8)], [vec('u', 3).at(k) for k in range(3)]

    def thunk():
        _pre21(eng)
        o = eng.call(eng.get_class(I1 + '.DiscreteInspection1v1RTA'), [], {'m': m, 'n': n, 'sun_vel': sun})
        return eng.call(eng.getattr(o, 'next_state_differentiable'), [vec('x', 8), dt, vec('u', 3)], {}), eng.call(eng.getattr(o, 'get_sun_vector'), [vec('x', 8)], {})

    P = phi_spec(n, dt)
    c, s = lib.COS(z3.simplify(n * dt)), lib.SIN(z3.simplify(n * dt))
    G = [[(1 - c) / (n * n), 2 * (n * dt - s) / (n * n), 0], [-2 * (n * dt - s) / (n * n), 4 * (1 - c) / (n * n) - 3 * dt * dt / 2, 0], [0, 0, (1 - c) / (n * n)],
         [s / n, 2 * (1 - c) / n, 0], [-2 * (1 - c) / n, 4 * s / n - 3 * dt, 0], [0, 0, s / n]]
    for o in ctx.run(thunk):
        ctx.at(o)
        r, sv = o.value
        r = arr(eng, r)
        for k in range(6):
            ctx.require(o, f'next state is the exact solution[{k}]', eq(r.at(k), dot(P[k], X[:6]) + dot(G[k], Us) / m))
        ctx.require(o, 'sun angle advances at the sun rate', eq(r.at(6), X[6] + sun * dt))
        vec_eq(ctx, o, 'sun vector follows the sun angle', eng, sv, lambda k: [-lib.COS(X[6]), -lib.SIN(X[6]), z3.RealVal(0)][k], 3)


@case('C21', 'InspectionRTA dynamics', modes='B', bvariants=(1, 2, 3, 4, 6))
def c21multi(ctx):
    N = ctx.variant
    eng = ctx.engine(ZMODS)
    m, n, sun = rl('m'), rl('n'), rl('sun')
    nx = 6 * N + 1
    X = [vec('x', nx).at(k) for k in range(nx)]

    def thunk():
        _pre21(eng)
        o = eng.call(eng.get_class(I3 + '.InspectionRTA'), [], {'m': m, 'n': n, 'sun_vel': sun, 'num_deputies': N})
        g = lambda f, *a: eng.call(eng.getattr(o, f), list(a), {})
        return g('state_transition_system', vec('x', nx)), g('state_transition_input', vec('x', nx)), g('get_sun_vector', vec('x', nx))

    A, Bm = amat(m, n)
    f = [dot(A[k % 6], X[6 * (k // 6):6 * (k // 6) + 6]) for k in range(6 * N)] + [sun]
    for o in ctx.run(thunk):
        ctx.at(o)
        fx, gx, sv = o.value
        vec_eq(ctx, o, f'f {N} agents', eng, fx, lambda k: f[k], nx)
        mat_eq(ctx, o, f'g {N} agents', eng, gx, Bm + [[0, 0, 0]] * (nx - 6))
        vec_eq(ctx, o, 'sun vector follows the sun angle', eng, sv, lambda k: [-lib.COS(X[nx - 1]), -lib.SIN(X[nx - 1]), z3.RealVal(0)][k], 3)


def _spec_mats(dim, m, n):
    if dim == 1:
        return [[0, 1], [0, 0]], [[0], [1 / m]]
    return amat(m, n, dim)


def _mk21k(path, dim, kind, method=None):
    nm = path.split('.')[-1] + (f' {method}' if method else '')

    @case('C21', f'{nm} dynamics', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        m, n, dt = rl('m'), rl('n'), rl('dt')
        A, Bm = _spec_mats(dim, m, n)
        nx, nu = len(A), len(Bm[0])
        X, Us = [vec('x', nx).at(k) for k in range(nx)], [vec('u', nu).at(k) for k in range(nu)]

        def thunk():
            _pre21(eng)
            kw = {'m': m}
            if dim > 1:
                kw['n'] = n
            if method:
                kw['integration_method'] = method
            if 'Implicit' in path:
                kw['backup_window'] = z3.IntVal(5)
            o = eng.call(eng.get_class(path), [], kw)
            g = lambda f, *a: eng.call(eng.getattr(o, f), list(a), {})
            if kind == 'sw':
                return g('_pred_state', eng.new_np(vec('x', nx)), dt, eng.new_np(vec('u', nu)))
            return g('state_transition_system', vec('x', nx)), g('state_transition_input', vec('x', nx))

        for o in ctx.run(thunk):
            ctx.at(o)
            if kind == 'sw':
                want = extdyn.linstep(method or 'RK45', mat(A), mat(Bm), dt, vec('x', nx), vec('u', nu))
                vec_eq(ctx, o, 'one step of the documented dynamics', eng, o.value, lambda k: want[k], nx)
            else:
                fx, gx = o.value
                vec_eq(ctx, o, 'f', eng, fx, lambda k: dot(A[k], X), nx)
                mat_eq(ctx, o, 'g', eng, gx, Bm)


for _p, _dim in ((D2 + '.Docking2d', 2), (D3 + '.Docking3d', 3), (G1 + '.Integrator1dDocking', 1)):
    for _k in ('Explicit', 'Implicit'):
        for _m in ('RK45', 'Euler'):
            _mk21k(f'{_p}{_k}SwitchingRTA', _dim, 'sw', _m)
        _mk21k(f'{_p}{_k}OptimizationRTA', _dim, 'opt')


# ------------------------------------------------------------------------------------------ C22 passive safety and sun cone

def _mk22psm(name, cls, dep, jit):
    @case('C22', f'{name} horizon jit={jit}', bvariants=(1, 2, 3))
    def c(ctx):
        eng = ctx.engine(ZMODS)
        n, Rr, dt = rl('n'), rl('R'), rl('dt')
        N = ctx.variant if ctx.bounded else z3.Int('N')
        nx = 19 if dep else 8
        X = [vec('x', nx).at(k) for k in range(nx)]
        k = z3.Int('hk')

        def thunk():
            eng.assume(z3.And(n > 0, rl('m') > 0))
            if not ctx.bounded:
                eng.assume(N >= 1)
            kw = {'collision_radius': rl('R_ctor'), 'm': rl('m'), 'n': n, 'dt': rl('dt_ctor'), 'steps': N}
            if dep:
                kw['deputy'] = dep
            v, phi, o = evalc(ctx, eng, cls, kw, {'collision_radius': Rr, 'dt': dt}, vec('x', nx), jit)
            el = None if ctx.bounded else eng.call(eng.getattr(o, 'get_future_state'), [vec('x', nx), zr(k + 1) * dt, Rr], {})
            return v, phi, o, el

        for o in ctx.run(thunk):
            ctx.at(o)
            v, phi, ob, el = o.value
            if not ctx.bounded:
                ev = zr(scalar(eng, el))
                want = lib.MINV(N, Arr((N, ), lambda q: z3.substitute(ev, (k, zi(q)))).as_term())
                ctx.require(o, 'minimum over the coast horizon plus the bias', eq(scalar(eng, v), want + z3.Real('bias')))
                ctx.require(o, 'reported value', eq(scalar(eng, phi), want))
            else:
                d = [X[q] - X[6 * dep + q] if dep else X[q] for q in range(6)]
                w = None
                for j in range(1, N + 1):
                    P = phi_spec(n, j * dt)
                    f = [dot(P[i], d) for i in range(3)]
                    e = lib.SQRT(dt3(f, f)) - Rr
                    w = e if w is None else lib.smin(w, e)
                ctx.require(o, f'minimum over {N} coast steps plus the bias', eq(scalar(eng, v), zr(w) + z3.Real('bias')))
            pr = eng.getattr(ob, 'params')
            ctx.require(o, 'radius and step from the constructor', z3.And(eq(scalar(eng, eng.getitem(pr, 'collision_radius')), rl('R_ctor')),
                                                                          eq(scalar(eng, eng.getitem(pr, 'dt')), rl('dt_ctor'))))


for _j in (True, False):
    _mk22psm('ConstraintPassivelySafeManeuver', I1 + '.ConstraintPassivelySafeManeuver', 0, _j)
    for _d in (1, 2):
        _mk22psm(f'ConstraintPSMDeputy {_d}', I3 + '.ConstraintPSMDeputy', _d, _j)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def cone_spec(p, v, c, w, fov, a):
    """(enforced, reported) value of staying out of a cone around axis c rotating with angular velocity w"""
    th = fov / 2
    sn, cs, tn = lib.SIN(th), lib.COS(th), lib.TAN(th)
    nc, np_ = zr(norm(c)), zr(norm(p))
    ch = [x / nc for x in c]
    s = dt3(p, ch)
    q = [p[k] - s * ch[k] for k in range(3)]
    rho = zr(norm(q))
    depth = cs * (rho - tn * s)                                  # signed distance of p from the cone surface
    nrm = [cs * q[k] / rho - sn * ch[k] for k in range(3)]       # outward normal of the surface
    proj = [p[k] - depth * nrm[k] for k in range(3)]
    dv = [v[k] - cross(w, proj)[k] for k in range(3)]
    cosang = dt3(ch, [x / np_ for x in p])
    dist = np_ * lib.SIN(lib.ARCCOS(cosang) - th)
    rate = dt3([depth * x for x in nrm], dv) / dist
    return z3.If(dist >= 0, sq(2 * a * dist), -sq(-2 * a * dist)) + rate, lib.ARCCOS(cosang) - th


def _mk22cone(jit):
    @case('C22', f'sun cone jit={jit}', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        p, v, c, w = [[vec(q, 3).at(k) for k in range(3)] for q in 'pvcw']

        def thunk():
            eng.assume(z3.And(zr(norm(p)) > 0, zr(norm(c)) > 0))
            nat = lambda n: Native(n, lambda e, a, kw: vec(n, 3))
            kw = {'a_max': rl('a_ctor'), 'fov': rl('fov_ctor'), 'get_pos': nat('p'), 'get_vel': nat('v'), 'get_cone_vec': nat('c'), 'cone_ang_vel': vec('w', 3)}
            return evalc(ctx, eng, I1 + '.ConstraintCWHConicKeepOutZone', kw, {'fov': rl('fov'), 'a_max': rl('a')}, vec('x', 8), jit)

        e, r = cone_spec(p, v, c, w, rl('fov'), rl('a'))
        for o in ctx.run(thunk):
            ctx.at(o)
            val, phi, ob = o.value
            ctx.require(o, 'enforced value: braking separation from the cone surface plus the bias', eq(scalar(eng, val), e + z3.Real('bias')))
            ctx.require(o, 'reported value: angle to the axis minus half the field of view', eq(scalar(eng, phi), r))
            pr = eng.getattr(ob, 'params')
            ctx.require(o, 'field of view and braking acceleration from the constructor', z3.And(eq(scalar(eng, eng.getitem(pr, 'fov')), rl('fov_ctor')),
                                                                                                 eq(scalar(eng, eng.getitem(pr, 'a_max')), rl('a_ctor'))))


for _j in (True, False):
    _mk22cone(_j)


def _mk22sign(N, i):
    @case('C22', f'deputy sun cone uses the relative position and velocity of agent {i} of {N}', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        nx = 6 * N + 1
        X = [vec('x', nx).at(k) for k in range(nx)]
        p, v = [X[k] - X[6 * i + k] for k in range(3)], [X[3 + k] - X[6 * i + 3 + k] for k in range(3)]
        sv = [-lib.COS(X[nx - 1]), -lib.SIN(X[nx - 1]), z3.RealVal(0)]

        def thunk():
            _pre21(eng)
            eng.assume(zr(norm(p)) > 0)
            o = eng.call(eng.get_class(I3 + '.InspectionRTA'), [], {'m': rl('m'), 'n': rl('n'), 'num_deputies': N})
            c = eng.getitem(eng.getattr(o, 'constraints'), f'deputy_sun_{i}')
            c0 = eng.getitem(eng.getattr(o, 'constraints'), 'chief_sun')
            g = lambda ob, f: eng.call(eng.getattr(ob, f), [vec('x', nx)], {})
            return [g(q, f) for q in (c, c0) for f in ('get_pos', 'get_vel', 'get_cone_vec')]

        cosang = dt3([x / zr(norm(p)) for x in p], [x / zr(norm(sv)) for x in sv])
        flip = lib.ARCCOS(cosang) > zr(lib.PI) / 2
        for o in ctx.run(thunk):
            ctx.at(o)
            gp, gv, gc, p0, v0, c0 = o.value
            vec_eq(ctx, o, 'position along the line of sight away from the sun', eng, gp, lambda k: z3.If(flip, -p[k], p[k]), 3)
            vec_eq(ctx, o, 'relative velocity with the same sign', eng, gv, lambda k: z3.If(flip, -v[k], v[k]), 3)
            vec_eq(ctx, o, 'cone axis', eng, gc, lambda k: sv[k], 3)
            vec_eq(ctx, o, 'own position', eng, p0, lambda k: X[k], 3)
            vec_eq(ctx, o, 'own velocity', eng, v0, lambda k: X[3 + k], 3)
            vec_eq(ctx, o, 'own cone axis', eng, c0, lambda k: sv[k], 3)


for _N, _i in ((2, 1), (3, 1), (3, 2)):
    _mk22sign(_N, _i)


# ------------------------------------------------------------------------------------------ C27 backup controllers

def lqr_spec(dim, m, n, X):
    """-K [0; v] with K = inv(R) B' P, P the Riccati solution for (A, B, Q = 0.05 I, R = 1000 I)"""
    A, Bm = amat(m, n, dim)
    nx, nu = 2 * dim, dim
    eye = lambda k, v: [[(z3.RealVal(v) if r == c else z3.RealVal(0)) for c in range(k)] for r in range(k)]
    P = lib.flat_uf('care', [mat(A), mat(Bm), mat(eye(nx, '1/20')), mat(eye(nu, '1000'))], [nx, nx])
    Ri = lib.flat_uf('matinv', [mat(eye(nu, '1000'))], [nu, nu])
    e = [z3.RealVal(0)] * dim + [zr(x) for x in X[dim:2 * dim]]
    BtP = [[sum([zr(Bm[q][r]) * P.at(q, c) for q in range(nx)], z3.RealVal(0)) for c in range(nx)] for r in range(nu)]
    K = [[sum([Ri.at(r, q) * BtP[q][c] for q in range(nu)], z3.RealVal(0)) for c in range(nx)] for r in range(nu)]
    return [-sum([K[r][c] * e[c] for c in range(nx)], z3.RealVal(0)) for r in range(nu)]


def _mk27(dim, cls):
    @case('C27', f'{cls.split(".")[-1]}.generate_control', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)
        m, n, dt = rl('m'), rl('n'), rl('dt')
        nx = 2 * dim
        X = [vec('x', nx).at(k) for k in range(nx)]

        def thunk():
            _pre21(eng)
            o = eng.call(eng.get_class(cls), [], {'m': m, 'n': n} if dim > 1 else {})
            g = lambda f, *a: eng.call(eng.getattr(o, f), list(a), {})
            a = g('generate_control', vec('x', nx), dt)
            g('generate_control', vec('y', nx), rl('dt2'))
            b = g('generate_control', vec('x', nx), rl('dt3'))
            z = g('generate_control', const_vec(X[:dim] + [0] * dim), dt)
            cs = eng.getattr(o, 'controller_state')
            d = g('generate_control_with_controller_state', vec('x', nx), dt, None)
            return a, b, z, d

        u = lqr_spec(dim, m, n, X) if dim > 1 else [z3.RealVal(-1)]
        for o in ctx.run(thunk):
            ctx.at(o)
            a, b, z, d = o.value
            vec_eq(ctx, o, 'documented control law', eng, a, lambda k: u[k], dim)
            vec_eq(ctx, o, 'independent of earlier calls and of the step', eng, b, lambda k: u[k], dim)
            vec_eq(ctx, o, 'same law with an explicit controller state', eng, d[0], lambda k: u[k], dim)
            if dim > 1:
                vec_eq(ctx, o, 'nothing commanded at rest', eng, z, lambda k: z3.RealVal(0), dim)


for _dim, _c in ((1, G1 + '.Integrator1dDockingBackupController'), (2, D2 + '.Docking2dStopLQRBackupController'), (3, D3 + '.Docking3dStopLQRBackupController')):
    _mk27(_dim, _c)


@case('C27', 'full braking from a stopping-distance-safe state', modes='U')
def c27s(ctx):
    eng = ctx.engine(ZMODS)
    X = [vec('x', 2).at(k) for k in range(2)]
    t = rl('t')

    def thunk():
        c = eng.call(eng.get_class(G1 + '.ConstraintIntegrator1dDockingCollisionExplicit'), [], {})
        q = eng.call(eng.get_class(G1 + '.ConstraintIntegrator1dDockingCollisionImplicit'), [], {})
        b = eng.call(eng.get_class(G1 + '.Integrator1dDockingBackupController'), [], {})
        u = eng.call(eng.getattr(b, 'generate_control'), [vec('x', 2), rl('dt')], {})
        a = zr(arr(eng, u).at(0))
        later = const_vec([X[0] + X[1] * t + a * t * t / 2, X[1] + a * t])       # unit mass, constant acceleration
        g = lambda c_, s: scalar(eng, eng.call(eng.getattr(c_, 'compute'), [s, eng.getattr(c_, 'params')], {}))
        return g(c, vec('x', 2)), g(q, later), g(c, later)

    for o in ctx.run(thunk):
        ctx.at(o)
        h0, pos, h1 = o.value
        ctx.require(o, 'never passes the docking position', z3.Implies(z3.And(zr(h0) >= 0, t >= 0), zr(pos) >= 0))
        ctx.require(o, 'stays stopping-distance safe', z3.Implies(z3.And(zr(h0) >= 0, t >= 0), zr(h1) >= 0))


# ------------------------------------------------------------------------------------------ C23 wiring of the built-in filters

def mag(limit, idx):
    f = lambda X, O: O[limit] * O[limit] - X[idx] * X[idx]
    return f, f


def _v1(O):
    return O['v1_coef'] * O['n']


def relvel(dim):
    f = lambda X, O: _relvel(dim)(X, {'v0': O['v0'], 'v1': _v1(O), 'v0_distance': O['v0_distance']})
    return f, f


def amax_spec(O):
    vm = lib.smin(O['vel_limit'], O['v0'] + _v1(O) * O['r_max'])
    return 1 / O['m'] - 3 * O['n'] * O['n'] * O['r_max'] - 2 * O['n'] * zr(vm)


def insp_specs(N, kind):
    R = lambda O: O['chief_radius'] + O['deputy_radius']
    co = (lambda X, O: _coll(X, {'collision_radius': R(O), 'a_max': amax_spec(O)}), lambda X, O: zr(norm(X[:3])) - R(O))
    s = {'rel_vel': relvel(3), 'x_vel': mag('vel_limit', 3), 'y_vel': mag('vel_limit', 4), 'z_vel': mag('vel_limit', 5),
         'r_max': (lambda X, O: _rmax(X, {'r_max': O['r_max'], 'a_max': amax_spec(O)}), lambda X, O: O['r_max'] - zr(norm(X[:3]))),
         'PSM': 'psm', ('chief_sun' if kind == 'multi' else 'sun'): 'cone'}
    if kind == 'hocbf':
        s['chief_collision_hocbf'] = (None, co[1])
    else:
        s['chief_collision'] = co
    if kind == 'multi':
        for i in range(1, N):
            s[f'deputy_collision_{i}'] = (lambda X, O, i=i: _dep(i)(X, {'collision_radius': 2 * O['deputy_radius'], 'a_max': amax_spec(O)}),
                                          lambda X, O, i=i: zr(norm([X[k] - X[6 * i + k] for k in range(3)])) - 2 * O['deputy_radius'])
            s[f'deputy_sun_{i}'] = f'cone{i}'
            s[f'deputy_PSM_{i}'] = f'psm{i}'
    return s


def cls_name(eng, o):
    return getattr(eng.obj_class(o), 'name', '')


def _mk23(path, opts, specs, nx, nu, extra=None, backup=None, pre=None, label='', modes='U'):
    @case('C23', path.split('.')[-1] + label, modes=modes)
    def c(ctx):
        eng = ctx.engine(ZMODS)
        O = {k: rl(k) for k in opts}
        X = [vec('x', nx).at(k) for k in range(nx)]
        Us = [vec('u', nu).at(k) for k in range(nu)]

        def thunk():
            _pre21(eng)
            for h in (pre(X) if pre else []):
                eng.assume(h)
            o = eng.call(eng.get_class(path), [], dict(O, control_bounds_low=rl('lo'), control_bounds_high=rl('hi'), **(extra or {})))
            cs = eng.getattr(o, 'constraints')
            r = {}
            for k in specs:
                c = eng.getitem(cs, k)
                p = eng.getattr(c, 'params')
                sp = specs[k]
                ev = ph = None
                if not (isinstance(sp, str) and sp.startswith('psm')):
                    if isinstance(sp, str) or sp[0] is not None:
                        ev = eng.call(eng.getattr(c, 'compute'), [vec('x', nx), p], {})
                    ph = eng.call(eng.getattr(c, 'phi'), [vec('x', nx), p], {})
                r[k] = (c, ev, ph)
            clipped = eng.call(eng.getattr(o, '_clip_control'), [eng.new_np(vec('u', nu))], {})
            bc = eng.call(eng.getattr(eng.getattr(o, 'backup_controller'), 'generate_control'), [vec('x', nx), rl('dt')], {}) if backup else None
            return o, r, clipped, bc

        for o in ctx.run(thunk):
            ctx.at(o)
            ob, r, clipped, bc = o.value
            keys = eng.concrete_items(eng.call(eng.getattr(eng.getattr(ob, 'constraints'), 'keys'), [], {}))
            ctx.require(o, 'documented constraint set', z3.BoolVal(sorted(map(str, keys)) == sorted(specs)))
            vec_eq(ctx, o, 'actuator range', eng, clipped, lambda k: clip(Us[k], rl('lo'), rl('hi')), nu)
            try:
                cd = eng.getattr(ob, 'control_dim')
                if 'Switching' not in path:
                    ctx.require(o, 'control dimension', zi(cd) == nu)
            except PyRaise:
                pass
            for k, sp in specs.items():
                c_, ev, ph = r[k]
                bias = zr(scalar(eng, eng.getattr(c_, 'bias')))
                ctx.require(o, f'{k}: the bias never loosens the constraint', bias <= 0)
                ctx.require(o, f'{k}: enabled', zb(eng.truth(eng.getattr(c_, 'enabled'))))
                pr = eng.getattr(c_, 'params')
                if isinstance(sp, str):
                    i = int(sp.lstrip('conepsm') or 0)
                    if sp.startswith('psm'):
                        ctx.require(o, f'{k}: passive safety constraint', z3.BoolVal(cls_name(eng, c_) == ('ConstraintPSMDeputy' if i else 'ConstraintPassivelySafeManeuver')))
                        ctx.require(o, f'{k}: horizon of 100 one-second steps', z3.And(zi(eng.getattr(c_, 'steps')) == 100, eq(scalar(eng, eng.getitem(pr, 'dt')), 1)))
                        ctx.require(o, f'{k}: mean motion', eq(scalar(eng, eng.getattr(c_, 'n')), O['n']))
                        ctx.require(o, f'{k}: radius', eq(scalar(eng, eng.getitem(pr, 'collision_radius')), O['chief_radius'] + O['deputy_radius']))
                        if i:
                            ctx.require(o, f'{k}: deputy', zi(eng.getattr(c_, 'deputy')) == i)
                        continue
                    p = [X[q] - X[6 * i + q] for q in range(3)] if i else X[:3]
                    v = [X[3 + q] - X[6 * i + 3 + q] for q in range(3)] if i else X[3:6]
                    th = X[6] if nx == 8 else X[nx - 1]
                    sv = [-lib.COS(th), -lib.SIN(th), z3.RealVal(0)]
                    if i:
                        cosang = dt3([x / zr(norm(p)) for x in p], [x / zr(norm(sv)) for x in sv])
                        flip = lib.ARCCOS(cosang) > zr(lib.PI) / 2
                        p, v = [z3.If(flip, -x, x) for x in p], [z3.If(flip, -x, x) for x in v]
                    e, f = cone_spec(p, v, sv, [z3.RealVal(0), z3.RealVal(0), O['sun_vel']], O['fov'], amax_spec(O))
                    ctx.require(o, f'{k}: limit value', eq(scalar(eng, ph), f))
                    if not i:
                        ctx.require(o, f'{k}: enforced value', eq(scalar(eng, ev), e + bias))
                    ctx.require(o, f'{k}: braking acceleration', eq(scalar(eng, eng.getitem(pr, 'a_max')), amax_spec(O)))
                    vec_eq(ctx, o, f'{k}: sun rate', eng, eng.getattr(c_, 'cone_ang_vel'), lambda q: [z3.RealVal(0), z3.RealVal(0), O['sun_vel']][q], 3)
                    continue
                if ev is not None:
                    ctx.require(o, f'{k}: enforced with its own options', eq(scalar(eng, ev), zr(sp[0](X, O)) + bias))
                ctx.require(o, f'{k}: reported with its own options', eq(scalar(eng, ph), sp[1](X, O)))
            if backup:
                u = backup(X, O)
                vec_eq(ctx, o, 'backup controller', eng, bc, lambda k: u[k], nu)


def _dock(dim):
    ax = 'xyz'[:dim]
    sp = {'rel_vel': relvel(dim)}
    for k, a in enumerate(ax):
        sp[a + '_vel'] = mag(a + '_vel_limit', dim + k)
    return sp, ['m', 'n', 'v0', 'v1_coef', 'v0_distance'] + [a + '_vel_limit' for a in ax]


for _dim, _p in ((2, D2 + '.Docking2d'), (3, D3 + '.Docking3d')):
    _sp, _op = _dock(_dim)
    for _k in ('Explicit', 'Implicit'):
        for _t in ('Switching', 'Optimization'):
            _bk = None if (_k, _t) == ('Explicit', 'Optimization') else (lambda X, O, d=_dim: lqr_spec(d, O['m'], O['n'], X))
            _mk23(f'{_p}{_k}{_t}RTA', _op, _sp, 2 * _dim, _dim, {'backup_window': z3.IntVal(5)} if _k == 'Implicit' else None, _bk)
for _k in ('Explicit', 'Implicit'):
    for _t in ('Switching', 'Optimization'):
        _f = (lambda X, O: -2 * X[0] - X[1] * X[1]) if _k == 'Explicit' else (lambda X, O: -X[0])
        _mk23(f'{G1}.Integrator1dDocking{_k}{_t}RTA', ['m'], {'rel_vel': (_f, _f)}, 2, 1, {'backup_window': z3.IntVal(5)} if _k == 'Implicit' else None,
              None if (_k, _t) == ('Explicit', 'Optimization') else (lambda X, O: [z3.RealVal(-1)]))
_iop = ['m', 'n', 'chief_radius', 'deputy_radius', 'v0', 'v1_coef', 'v0_distance', 'r_max', 'fov', 'vel_limit', 'sun_vel']
_npos = lambda X: [zr(norm(X[:3])) > 0]
_mk23(I1 + '.Inspection1v1RTA', _iop, insp_specs(1, '1v1'), 8, 3, None, None, _npos)
_mk23(I1 + '.Inspection1v1RTA', _iop, insp_specs(1, 'hocbf'), 8, 3, {'use_hocbf': True}, None, _npos, ' with second-order barrier')
_mk23(I1 + '.DiscreteInspection1v1RTA', _iop, insp_specs(1, 'discrete'), 8, 3, None, None, _npos)
for _N in (1, 2, 3):
    _mk23(I3 + '.InspectionRTA', _iop, insp_specs(_N, 'multi'), 6 * _N + 1, 3, {'num_deputies': _N}, None,
          lambda X, N=_N: [zr(norm(X[:3])) > 0] + [zr(norm([X[k] - X[6 * i + k] for k in range(3)])) > 0 for i in range(1, N)], f' {_N} agents')


@case('C23', 'InspectionCascadedRTA', modes='U')
def c23c(ctx):
    eng = ctx.engine(ZMODS)

    def thunk():
        eng.assume(z3.And(rl('M_DEFAULT') > 0, rl('N_DEFAULT') > 0))
        o = eng.call(eng.get_class(I1 + '.InspectionCascadedRTA'), [], {})
        return eng.concrete_items(eng.getattr(o, 'rta_list'))

    for o in ctx.run(thunk):
        ctx.at(o)
        names = [cls_name(eng, x) for x in o.value]
        ctx.require(o, 'constraint filter first, fuel limit last', z3.BoolVal(names == ['Inspection1v1RTA', 'SwitchingDeltaVLimitRTA']))


def _mk23b(path, dim):
    @case('C23', path.split('.')[-1] + ' given backup controller', modes='U')
    def c(ctx):
        eng = ctx.engine(ZMODS)

        def thunk():
            _pre21(eng)
            b = eng.call(eng.get_class(G1 + '.Integrator1dDockingBackupController'), [], {})
            o = eng.call(eng.get_class(path), [], dict({'m': rl('m'), 'backup_controller': b}, **({'backup_window': z3.Int('bw')} if 'Implicit' in path else {})))
            return o, b

        for o in ctx.run(thunk):
            ctx.at(o)
            ob, b = o.value
            ctx.require(o, 'given backup controller is used', z3.BoolVal(eng.getattr(ob, 'backup_controller') == b))
            if 'Implicit' in path:
                ctx.require(o, 'backup window option', eq(scalar(eng, eng.getattr(ob, 'backup_window')), zr(z3.Int('bw'))))


for _p, _dim in ((D2 + '.Docking2d', 2), (D3 + '.Docking3d', 3), (G1 + '.Integrator1dDocking', 1)):
    for _k in ('ExplicitSwitching', 'ImplicitSwitching', 'ImplicitOptimization'):
        _mk23b(f'{_p}{_k}RTA', _dim)
