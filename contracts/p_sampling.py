"""C25: sample-testing modules.  The filter, dynamics, controller, sampler and termination test are arbitrary functions."""
from contracts.users import *
from contracts.harness import _args       # noqa
from contracts.framework import *   # noqa
from pyver.values import Opaque, ExcVal

ST = 'run_time_assurance.utils.sample_testing'
SMODS = MODS + [ST]
RS_ = z3.DeclareSort('FilterState')


def world(ctx, eng, nx, nu, nc, base, done, **kw):
    """a testing module around an arbitrary filter with arbitrary internal state; call inside a thunk"""
    W = User()
    W.F = make_constraints(eng, nc, nx, jit_enable=True, slack=False, phi=True)
    W.FC = uf_vec('filtered', nu, RS_, VEC, R, VEC)
    W.FAIL = z3.Function('fails', RS_, VEC, R, VEC, B)
    W.IV = z3.Function('intervenes', RS_, VEC, R, VEC, B)
    W.NXT = z3.Function('next_filter_state', RS_, VEC, R, VEC, RS_)
    W.PRED = uf_vec('plant', nx, VEC, R, VEC)
    W.DES = uf_vec('desired', nu, VEC)
    W.DONE = z3.Function('done', VEC, R, B)
    err = eng.get_class('run_time_assurance.utils.utils.SolverError')

    def fc(e, a, kw):
        s, x, dt, u = _args(e, a, kw, ('self', 'input_state', 'step_size', 'control_desired'))
        rs = e.force(e.getattr(s, '$rs')).term
        t = (rs, term(e, x), zr(scalar(e, dt)), term(e, u))
        if e.choose([W.FAIL(*t), z3.Not(W.FAIL(*t))]) == 0:
            raise PyRaise(ExcVal(err, ()))
        e.setattr(s, '$rs', Opaque(W.NXT(*t), ()))
        e.setattr(s, 'intervening', W.IV(*t))
        return e.new_np(W.FC(*t))

    W.rcls = user_class(eng, 'UserFilter', eng.get_class(RB + 'ConstraintBasedRTA'), {'filter_control': fc})
    W.rta = eng.alloc(ObjCell(W.rcls, {'$rs': Opaque(z3.Const('rs0', RS_), ()), 'intervening': z3.Bool('iv0'), 'constraints': W.F.dict, 'enable': True}))

    def pred(e, a, kw):
        s, x, dt, u = _args(e, a, kw, ('self', 'state', 'step_size', 'control'))
        return e.new_np(W.PRED(term(e, x), zr(scalar(e, dt)), term(e, u)))

    def des(e, a, kw):
        return e.new_np(W.DES(term(e, _args(e, a, kw, ('self', 'state'))[1])))

    def dn(e, a, kw):
        s, x, t = _args(e, a, kw, ('self', 'state', 'time'))
        return W.done(term(e, x), zr(scalar(e, t)))

    # bounded mode: episodes of at most three steps
    W.done = lambda x, t: z3.Or(W.DONE(x, t), t >= 3 * z3.Real('dt')) if ctx.bounded else W.DONE(x, t)
    W.stop = lambda x, k: (W.done(x, k * z3.Real('dt')) if done == 'user' else k * z3.Real('dt') >= z3.Real('T'))
    if ctx.bounded:
        eng.unroll_whiles = True
        eng.assume(z3.And(z3.Real('dt') > 0, z3.Real('T') <= 3 * z3.Real('dt')))
    W.IC = uf_vec('initial', nx, I)

    def ini(e, a, kw):
        k = zi(e.getattr(a[0], '$draws'))
        e.setattr(a[0], '$draws', k + 1)
        return e.new_np(W.IC(k))

    m = {'_pred_state': pred, '_desired_control': des, '_get_initial_state': ini}
    if done == 'user':
        m['_check_done_conditions'] = dn
    W.cls = user_class(eng, 'UserTest', eng.get_class(ST + '.' + base), m)
    W.obj = eng.call(W.cls, [], dict(simulation_time=z3.Real('T'), step_size=z3.Real('dt'), control_dim=nu, state_dim=nx, rta=W.rta, **kw))
    eng.setattr(W.obj, '$draws', z3.Int('draws0'))
    havoc_constraints(eng, W.F)
    return W


def bad(W, xt, initial):
    F = W.F
    j = z3.Int('vj')
    def one(q):
        p = F.phi(q, F.par_now(q), xt) < 0
        return z3.Or(p, F.h(q, F.par_now(q), xt) + F.bias(q) < 0) if initial else p
    if isinstance(F.n, int):
        return z3.Or(*[one(zi(q)) for q in range(F.n)])
    return z3.Exists([j], z3.And(j >= 0, j < zi(F.n), one(j)))


def trajectory(eng, W, x0, bounded):
    """specification: states and filter states of the closed loop"""
    if bounded:
        xs, ss = [x0], [z3.Const('rs0', RS_)]
        for _ in range(4):
            t = (ss[-1], xs[-1], z3.Real('dt'), term(eng, W.DES(xs[-1])))
            xs.append(term(eng, W.PRED(xs[-1], z3.Real('dt'), term(eng, W.FC(*t)))))
            ss.append(W.NXT(*t))
        return (lambda k: xs[k]), (lambda k: ss[k])
    i, X, S = z3.Int('%ti'), z3.Const('%tx', VEC), z3.Const('%ts', RS_)
    t = (S, X, z3.Real('dt'), W.DES(X).as_term())
    xs, ss = W.PRED(X, z3.Real('dt'), W.FC(*t).as_term()), W.NXT(*t)
    return loops.recur(eng, [x0, z3.Const('rs0', RS_)], [xs.as_term(), ss], i, [X, S])


def _mk(done):
    @case('C25', f'SafetyAssuranceSampleTestingModule._simulate_episode done={done}')
    def c(ctx):
        eng = ctx.engine(SMODS)
        nx, nu, nc = ctx.dim('nx', 2), ctx.dim('nu', 1), ctx.dim('nc', 2)
        hold = {}

        def thunk():
            dims_pos(eng, (nx, 1), (nu, 1), (nc, 0))
            W = hold['W'] = world(ctx, eng, nx, nu, nc, 'SafetyAssuranceSampleTestingModule', done, n_points=5)
            x = eng.new_np(vec('x', nx))
            return W, x, eng.call(eng.getattr(W.obj, '_simulate_episode'), [x], {})

        for o in ctx.run(thunk):
            ctx.at(o)
            W, x, r = o.value
            r = eng.force(r)
            dt = z3.Real('dt')
            x0 = term(eng, vec('x', nx))
            traj = trajectory(eng, W, x0, ctx.bounded)
            fX, fS = traj
            at = lambda k: (fS(k), fX(k), dt, term(eng, W.DES(fX(k))))
            dn = lambda k: W.stop(fX(k), k)
            if r is None:
                ctx.require(o, 'resampled only if the initial state violates a constraint', bad(W, x0, True))
                continue
            ctx.require(o, 'never judged when the initial state violates a constraint', z3.Not(bad(W, x0, True)))
            r = zb(eng.truth(r))
            if ctx.bounded:
                wrong = []
                for k in (1, 2, 3):
                    before = z3.And(*[z3.Not(dn(j)) for j in range(1, k)])
                    ctx.require(o, f'judged safe: every simulated state satisfies every constraint [{k}]', z3.Implies(z3.And(r, before), z3.Not(bad(W, fX(k), False))))
                    ctx.require(o, f'judged safe: the filter never failed [{k}]', z3.Implies(z3.And(r, before), z3.Not(W.FAIL(*at(k - 1)))))
                    wrong.append(z3.And(before, z3.Or(W.FAIL(*at(k - 1)), bad(W, fX(k), False))))
                ctx.require(o, 'judged unsafe: the filter failed or a simulated state violates a constraint', z3.Or(r, *wrong))
                continue
            k, j = z3.Int('%k'), z3.Int('%j')
            before = z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < k), z3.Not(dn(j))))
            ctx.require(o, 'judged safe: every simulated state satisfies every constraint', z3.Implies(r, z3.Not(bad(W, fX(k), False))), extra=[k >= 1, before])
            ctx.require(o, 'judged safe: the filter never failed', z3.Implies(r, z3.Not(W.FAIL(*at(k - 1)))), extra=[k >= 1, before])
            ctx.require(o, 'judged unsafe: the filter failed or a simulated state violates a constraint',
                        z3.Implies(z3.Not(r), z3.Exists([k], z3.And(k >= 1, before, z3.Or(W.FAIL(*at(k - 1)), bad(W, fX(k), False))))))
    return c


for _d in ('user', 'default'):
    _mk(_d)


def _mkd(done, check):
    @case('C25', f'DataTrackingSampleTestingModule.simulate_episode done={done} check={check}')
    def c(ctx):
        eng = ctx.engine(SMODS)
        nx, nu, nc = ctx.dim('nx', 2), ctx.dim('nu', 1), ctx.dim('nc', 2)

        def thunk():
            dims_pos(eng, (nx, 1), (nu, 1), (nc, 0))
            W = world(ctx, eng, nx, nu, nc, 'DataTrackingSampleTestingModule', done, check_init_state=check)
            if ctx.bounded and check:
                eng.assume(z3.Not(bad(W, term(eng, W.IC(z3.Int('draws0') + 1)), True)))       # at most two samples
            return W, eng.call(eng.getattr(W.obj, 'simulate_episode'), [], {})

        for o in ctx.run(thunk, allow=('SolverError', 'ValueError')):
            if o.kind == 'raise':
                continue
            ctx.at(o)
            W, r = o.value
            r = eng.concrete_items(r)
            X, U, V = [arr(eng, q) for q in r]
            n = simp(X.shape[0])
            ctx.require(o, 'one state per step', zi(n) >= 2)
            ctx.require(o, 'as many controls and flags as states', z3.And(zi(U.shape[0]) == zi(n), zi(V.shape[0]) == zi(n)))
            d = z3.simplify(zi(eng.getattr(W.obj, '$draws')) - 1)         # the last sample drawn
            x0 = term(eng, W.IC(d))
            ctx.forall(o, 'first recorded state is the sampled one', nx, lambda k: eq(X.at(0, k), W.IC(d).at(k)))
            if not check:
                ctx.require(o, 'one sample drawn', d == z3.Int('draws0'))
            if check:
                ctx.require(o, 'starts from a state that satisfies every constraint', z3.Not(bad(W, x0, True)))
            dt = z3.Real('dt')
            fX, fS = trajectory(eng, W, x0, ctx.bounded)
            at = lambda k: (fS(k), fX(k), dt, term(eng, W.DES(fX(k))))
            k = z3.Int('%k')
            ctx.forall(o, 'first recorded control is zero', nu, lambda q: eq(U.at(0, q), 0))
            ctx.require(o, 'first recorded flag is false', z3.Not(zb(V.at(0))))
            q = z3.Int('%q2')
            ks = [(k, [k >= 1, k < zi(n)])] if not isinstance(n, int) else [(t, []) for t in range(1, n)]
            for t, ex in ks:
                for v in ([q] if not isinstance(nx, int) else range(nx)):
                    ctx.require(o, f'every state recorded in order', eq(X.at(t, v), z3.Select(fX(t), v)), extra=ex + ([q >= 0, q < zi(nx)] if v is q else []))
                for v in ([q] if not isinstance(nu, int) else range(nu)):
                    ctx.require(o, f'every applied control recorded in order', eq(U.at(t, v), W.FC(*at(t - 1)).at(v)), extra=ex + ([q >= 0, q < zi(nu)] if v is q else []))
                ctx.require(o, f'every flag recorded in order', zb(V.at(t)) == W.IV(*at(t - 1)), extra=ex)
                ctx.require(o, 'recorded exactly until the end of the episode', W.stop(fX(t), t) == (zi(t) == zi(n) - 1), extra=ex)
    return c


for _d in ('user', 'default'):
    for _c in (True, False):
        _mkd(_d, _c)


def _io():
    """report file: assumed contract of csv.writer (rows are written as given, in order)"""
    def writer(e, a, kw):
        lib.assumed(e, 'csv.writer: writerow / writerows write the given rows in order')
        c = ClassVal('csv_writer', None, [])

        def rows(e2, a2, k2):
            e2.st.events.append(('rows', a2[1]))

        def row(e2, a2, k2):
            e2.st.events.append(('row', a2[1]))
        c.attrs['writerows'] = Native('writerows', rows)
        c.attrs['writerow'] = Native('writerow', row)
        return e.alloc(ObjCell(c, {}))

    def now(e, a, kw):
        c = ClassVal('now', None, [])
        c.attrs['strftime'] = Native('strftime', lambda e2, a2, k2: 'date')
        return e.alloc(ObjCell(c, {}))
    lib.LIB['csv.writer'] = writer
    lib.LIB['datetime.datetime.now'] = now


_io()


@case('C25', 'SafetyAssuranceSampleTestingModule.run_sample_test', modes='B', bvariants=(1, 2))
def c25r(ctx):
    """against the contract of _simulate_episode: an arbitrary verdict (true, false, none) of the initial state and of the calls so far"""
    eng = ctx.engine(SMODS)
    nx, nu, nc = ctx.dim('nx', 2), ctx.dim('nu', 1), ctx.dim('nc', 2)
    N = ctx.variant if ctx.bounded else z3.Int('N')
    NONE, SAFE = z3.Function('verdict_none', I, VEC, B), z3.Function('verdict_safe', I, VEC, B)

    def sim(e, a, kw):
        s, x = _args(e, a, kw, ('self', 'state'))
        k = zi(e.getattr(s, '$draws')) - 1
        t = term(e, x)
        return UVal([(NONE(k, t), None), (z3.Not(NONE(k, t)), SAFE(k, t))])

    def thunk():
        dims_pos(eng, (nx, 1), (nu, 1), (nc, 0))
        if not ctx.bounded:
            eng.assume(N >= 1)
        W = world(ctx, eng, nx, nu, nc, 'SafetyAssuranceSampleTestingModule', 'default', n_points=N)
        W.cls.attrs['_simulate_episode'] = Native('_simulate_episode', sim)
        if ctx.bounded:
            # at most two samples per episode
            for k in range(4):
                t = [term(eng, W.IC(z3.Int('draws0') + k + d)) for d in (0, 1)]
                eng.assume(z3.Not(z3.And(NONE(z3.Int('draws0') + k, t[0]), NONE(z3.Int('draws0') + k + 1, t[1]))))
        eng.call(eng.getattr(W.obj, 'run_sample_test'), ['out'], {})
        return W

    for o in ctx.run(thunk):
        ctx.at(o)
        W = o.value
        ev = [e for e in o.state.events if e[0] in ('row', 'rows')]
        rows = []
        for e in ev:
            rows += [e[1]] if e[0] == 'row' else list(eng.concrete_items(e[1]))
        ctx.require(o, 'one row per episode', z3.BoolVal(len(rows) == N))
        d0 = z3.Int('draws0')
        used, k = [], d0
        for r in rows:
            v, x = eng.concrete_items(r)
            xs = eng.concrete_items(x)
            # sample k, or k + 1 when sample k is rejected
            t0 = term(eng, W.IC(k))
            k = z3.If(NONE(k, t0), k + 1, k)
            tk = term(eng, W.IC(k))
            ctx.require(o, 'verdict of the reported state', z3.And(z3.Not(NONE(k, tk)), zb(eng.truth(v)) == SAFE(k, tk)))
            ctx.require(o, 'state size', z3.BoolVal(len(xs) == nx))
            for q in range(nx):
                ctx.require(o, 'reported state is the initial state of the episode', eq(xs[q], W.IC(k).at(q)))
            k = k + 1
        ctx.require(o, 'no sample skipped', zi(eng.getattr(W.obj, '$draws')) == k)
