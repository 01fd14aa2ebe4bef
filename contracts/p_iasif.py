"""C12 C13 (+C07 C10 C18): the implicit optimizing filter"""
from contracts.asif_users import *      # noqa
from contracts.harness import _args
from contracts.p_asif import nslack, slack_no, str_is, qp_rows_bounded
from contracts.p_simplex import flag, clipped
from pyver.lib import matmul


def run_iasif(ctx, lo='none', hi='none', jit=True, slack=True, nact=0, dims=(2, 2, 2, 1), subsample=None, N=3, exc=False, allow=('ValueError', )):
    eng = ctx.engine()
    if slack and ctx.bounded:
        slack = (True, False, True)[-dims[2]:]
    nu, nx, nc, nd = [ctx.dim(k, v) for k, v in zip(('nu', 'nx', 'nc', 'nd'), dims)]
    dt = z3.Real('dt') if not ctx.bounded else Fraction(1, 2)
    window = None if not ctx.bounded else Fraction(N - 1, 2) + Fraction(2, 5)

    def thunk():
        dims_pos(eng, (nu, 1), (nx, 1), (nc, 0), (nd, 0))
        if not ctx.bounded:
            eng.assume(dt > 0)
            eng.assume(z3.Real('window') >= 0)
        U = implicit_asif(eng, nu, nx, nc, nd, lo, hi, jit, slack, nact, exc, window=window, subsample=subsample)
        U.dt = dt
        u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx))
        r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, dt, u], {})
        return U, u, st, r

    return eng, ctx.run(thunk, allow=allow)


@case('C18', 'implicit optimizing filter look-ahead restores the controller')
def c18a(ctx):
    eng, outs = run_iasif(ctx, slack=False, dims=(1, 1, 1, 0), N=2)
    for o in outs:
        ctx.at(o)
        if o.kind == 'raise':
            continue
        U, u, st, r = o.value
        cs = eng.force(eng.getattr(U.bc, 'controller_state'))
        for g, v in (cs.cases if isinstance(cs, UVal) else [(z3.BoolVal(True), cs)]):
            ctx.require(o, 'controller state as before the call', csterm(eng, v) == z3.Const('cs0', CS), extra=[zb(g)])


def traj_step(eng, U, X, S, c):
    """spec: one step of backup trajectory and sensitivity.  X Arr, S Arr, c term"""
    nu, nx, dt = U.nu, U.nx, zr(U.dt)
    b = clipped(U, U.BCF(term(eng, X), dt, c))
    X1 = U.STEP(term(eng, X), dt, term(eng, b))
    c1 = U.BCS(term(eng, X), dt, c)
    x1 = term(eng, X1)
    bc, g = U.BCF(x1, dt, c1), U.g(x1)
    # J = Df + sum_m (Dg[:,m,:] b_m + g[:,m] Db[m,:])
    J = Arr((nx, nx), lambda i, k: sadd(U.df(x1, zi(i), zi(k)), lib._sum_fn(
        eng, nu, lambda m: sadd(smul(U.dg(x1, zi(i), zi(m), zi(k)), bc.at(m)), smul(g.at(i, m), U.db(x1, dt, c1, zi(m), zi(k)))))))
    JS = Arr((nx, nx), lambda i, k: lib._sum_fn(eng, nx, lambda j: smul(J.at(i, j), S.at(j, k))))
    S1 = Arr((nx, nx), lambda i, k: sadd(S.at(i, k), smul(JS.at(i, k), U.dt)))
    return X1, S1, c1


def point_row(eng, U, q, X, S):
    """spec: barrier row of constraint q at a trajectory point: weights, constant, value"""
    F, nx = U.F, U.nx
    q = zi(q)
    xt = term(eng, X)
    x0 = term(eng, vec('st', nx))
    p = U.par(q)
    gh = F.gh(q, p, xt)
    f, g = U.f(x0), U.g(x0)
    h = F.h(q, p, xt) + F.bias(q)
    w = lambda k: lib._sum_fn(eng, nx, lambda i: smul(gh.at(i), lib._sum_fn(eng, nx, lambda j: smul(S.at(i, j), g.at(j, k)))))
    c = ssub(smul(-1, lib._sum_fn(eng, nx, lambda i: smul(gh.at(i), lib._sum_fn(eng, nx, lambda j: smul(S.at(i, j), f.at(j)))))), F.al(q, h))
    return w, c, h


def spec_traj(eng, U, N):
    X, S, c = vec('st', U.nx), Arr((U.nx, U.nx), lambda i, k: 1 if i == k else 0), z3.Const('cs0', CS)
    out = [(X, S)]
    for _ in range(N - 1):
        X, S, c = traj_step(eng, U, X, S, c)
        out.append((X, S))
    return out


def kept_points(N, nca=-1, skip=1, first=False, last=False):
    pts = list(range(0, nca)) + list(range(nca + 1, N, skip))
    return pts + ([0] if first else []) + ([N - 1] if last else [])


def iasif_rows(eng, U, ns, N, cfg=None):
    n = U.nu + ns
    rows = []
    xt = term(eng, vec('st', U.nx))
    for which, sg in (('lo', 1), ('hi', -1)):
        if getattr(U, which) != 'none':
            for k in range(U.nu):
                rows.append((z3.BoolVal(True), [sg if j == k else 0 for j in range(n)], smul(sg, b_at(U, which, k))))
    tr = spec_traj(eng, U, N)
    for q in range(U.nc):
        sn = slack_no(eng, U, q)
        for p in kept_points(N, **(cfg or {})):
            w, c, h = point_row(eng, U, q, *tr[p])
            rows.append((U.en(zi(q)), [w(k) for k in range(U.nu)] + [z3.If(z3.And(U.F.hs(zi(q)), sn == j), z3.RealVal(-1), z3.RealVal(0)) for j in range(ns)], c))
    for q in range(U.nd):
        w = U.D.w(zi(q), U.D.par(zi(q)), xt)
        rows.append((U.D.en(zi(q)), [w.at(k) for k in range(U.nu)] + [0] * ns, U.D.c(zi(q), U.D.par(zi(q)), xt)))
    return rows


def iasif_rows_unbounded(ctx, o, eng, U, C, b, slack, N_, per, point):
    """exact layout: low limits, high limits, per constraint its kept trajectory points, direct"""
    nu, nc, nd = zi(U.nu), zi(U.nc), zi(U.nd)
    ns = nslack(eng, U)
    i, X, S, cs = z3.Int('%ti'), z3.Const('%tX', VEC), z3.Const('%tS', MAT), z3.Const('%tc', CS)
    X1, S1, c1 = traj_step(eng, U, Arr((U.nx, ), None, X), Arr((U.nx, U.nx), None, S), cs)
    eye = Arr((U.nx, U.nx), lambda p, k: z3.If(zi(p) == zi(k), z3.RealVal(1), z3.RealVal(0)))
    fx, fS, fc = loops.recur(eng, [term(eng, vec('st', U.nx)), eye.as_term(), z3.Const('cs0', CS)], [X1.as_term(), S1.as_term(), c1], i, [X, S, cs])
    ri = z3.Int('%ri')
    ps = loops.psum(eng, ri, z3.If(U.F.hs(ri), z3.IntVal(1), z3.IntVal(0))) if slack else None
    sn = (lambda t: ps.f(zi(t))) if ps is not None else (lambda t: z3.IntVal(0))
    q, p, k = z3.Int('%q'), z3.Int('%p'), z3.Int('%k')
    z = z3.RealVal(0)
    xt = term(eng, vec('st', U.nx))
    ctx.require(o, 'row width', zi(C.shape[0]) == nu + zi(ns))
    off = z3.IntVal(0)
    kr = [k >= 0, k < nu + zi(ns)]
    for which, sg in (('lo', 1), ('hi', -1)):
        if getattr(U, which) != 'none':
            r = [q >= 0, q < nu]
            ctx.require(o, f'{which} limit row', z3.And(eq(C.at(k, off + q), z3.If(k == q, z3.RealVal(sg), z)), eq(b.at(off + q), smul(sg, b_at(U, which, q)))),
                        extra=kr + r)
            off = off + nu
    pt = point(p)
    w, cc, h = point_row(eng, U, q, Arr((U.nx, ), None, fx(pt)), Arr((U.nx, U.nx), None, fS(pt)))
    rng = [q >= 0, q < nc, p >= 0, p < per]
    en = U.en(q)
    row = off + q * per + p
    ctx.require(o, 'barrier row weights', eq(C.at(k, row), z3.If(en, zr(w(k)), z)), extra=rng + [k >= 0, k < nu])
    ctx.require(o, 'barrier row constant', eq(b.at(row), z3.If(en, zr(cc), z)), extra=rng)
    own = z3.And(U.F.hs(q), sn(q) == k) if slack else z3.BoolVal(False)
    ctx.require(o, 'barrier row slack', z3.Implies(z3.Or(en, z3.Not(own)), eq(C.at(nu + k, row), z3.If(own, z3.RealVal(-1), z))), extra=rng + [k >= 0, k < zi(ns)])
    off = off + nc * per
    dw = U.D.w(q, U.D.par(q), xt)
    r = [q >= 0, q < nd]
    ctx.require(o, 'direct row', eq(C.at(k, off + q), z3.If(z3.And(U.D.en(q), k < nu), zr(dw.at(k)), z)), extra=r + kr)
    ctx.require(o, 'direct constant', eq(b.at(off + q), z3.If(U.D.en(q), U.D.c(q, U.D.par(q), xt), z)), extra=r)
    ctx.require(o, 'number of rows', z3.And(zi(C.shape[1]) == off + nd, zi(b.shape[0]) == off + nd))


def _mk12(lo, hi, jit, slack, props='C12', cfg=None):
    @case(props, f'ImplicitASIF conditions low={lo} high={hi} jit={jit} slack={slack}' + (' subsampled' if cfg else ''))
    def c(ctx):
        N = 3
        eng, outs = run_iasif(ctx, lo, hi, jit, slack, N=N, dims=(1, 2, 2, 1), subsample=cfg)
        for o in outs:
            if o.kind == 'raise':
                continue
            ctx.at(o)
            U, u, st, r = o.value
            qs = qp_events(o)
            ctx.require(o, 'one solver call', len(qs) == 1)
            if len(qs) != 1:
                continue
            _, G, a, C, b, meq = qs[0]
            ctx.require(o, 'only inequality rows', zi(meq) == 0)
            ns = nslack(eng, U)
            if ctx.bounded:
                own = lambda g: z3.Or(z3.BoolVal(False), *[z3.And(z3.Not(U.en(zi(q))), U.F.hs(zi(q)), *[z3.Or(slack_no(eng, U, q) == k, eq(g[0][U.nu + k], 0)) for k in range(ns)])
                                      for q in range(U.nc)])
                free = lambda g: z3.And(*[eq(x, 0) for x in g[0][:U.nu]], zr(g[1]) <= 0, own(g))
                kw = dict(nca=cfg['num_check_all'], skip=cfg['skip_length'], first=cfg.get('keep_first', False), last=cfg.get('keep_last', False)) if cfg else None
                qp_rows_bounded(ctx, o, eng, U, C, b, iasif_rows(eng, U, ns, N, kw), free)
                continue
            N_ = z3.ToInt(U.window / zr(U.dt)) + 1
            if cfg:
                nca, skip, first, last = cfg['num_check_all'], cfg['skip_length'], cfg.get('keep_first', False), cfg.get('keep_last', False)
                # a backup window of at least num_check_all points (documented)
                eng.assume(N_ >= nca)
                cnt = max(nca, 0) + zmax(z3.IntVal(0), (N_ - nca - 2 + skip) / skip)
                pt = lambda j: z3.If(j < max(nca, 0), j, z3.If(j < cnt, nca + 1 + (j - max(nca, 0)) * skip, z3.If(z3.And(z3.BoolVal(first), j == cnt), z3.IntVal(0), N_ - 1)))
                iasif_rows_unbounded(ctx, o, eng, U, C, b, slack, N_, cnt + int(first) + int(last), pt)
            else:
                iasif_rows_unbounded(ctx, o, eng, U, C, b, slack, N_, N_, lambda j: j)
    return c


def _mk12n(lo, hi, jit):
    @case('C12', f'ImplicitASIF names the active conditions low={lo} high={hi} jit={jit}')
    def c(ctx):
        N = 2
        eng, outs = run_iasif(ctx, lo, hi, jit, False, N=N, nact=1, dims=(1, 1, 2, 1))
        for o in outs:
            if o.kind == 'raise':
                continue
            ctx.at(o)
            U, u, st, r = o.value
            eng.assume(z3.Not(U.Q.infeasible))
            if not eng.feasible():
                continue
            lst = eng.force(eng.getattr(U.obj, 'constraints_causing_intervention'))
            segs = eng.cell(lst).segs
            ctx.require(o, 'one name per active condition', zi(eng.length(lst)) == 1)
            if len(segs) != 1 or segs[0].fam:
                continue
            v = segs[0].val
            t = z3.Int('qpact0') - 1
            nu, nc, nd = zi(U.nu), zi(U.nc), zi(U.nd)
            N_ = zi(N) if ctx.bounded else z3.ToInt(U.window / zr(U.dt)) + 1
            off, k, q, p = z3.IntVal(0), z3.Int('%k'), z3.Int('%q'), z3.Int('%p')
            for which, suf in (('lo', '_min'), ('hi', '_max')):
                if getattr(U, which) != 'none':
                    ctx.require(o, f'name of {which} limits', z3.Implies(z3.And(t >= off, t < off + nu), str_is(eng, v, SymStr(['u', t - off + 1, suf]) if not ctx.bounded else 'u1' + suf)))
                    off = off + nu
            if ctx.bounded:
                for c_ in range(U.nc):
                    ctx.require(o, f'name of barrier conditions {c_}', z3.Implies(z3.And(t >= off + c_ * N_, t < off + (c_ + 1) * N_), str_is(eng, v, f'con{c_}')))
            else:
                ctx.require(o, 'name of barrier conditions', str_is(eng, v, SymStr([KeyPart('con', q)])), extra=[q >= 0, q < nc, p >= 0, p < N_, t == off + q * N_ + p])
            off = off + nc * N_
            ctx.require(o, 'name of direct conditions', z3.Implies(z3.And(t >= off, t < off + nd), str_is(eng, v, SymStr([KeyPart('dir', t - off)]) if not ctx.bounded else 'dir0')))
    return c


_mk12n('scalar', 'none', True)
_mk12n('none', 'scalar', False)

# ------------------------------------------------------------------------------------------ C13 subsampling

# arbitrary valid configuration of constraint q: -1 <= num_check_all <= N, skip_length >= 1, num_least >= 0
NCA = lambda q: zmin(zmax(z3.Function('num_check_all', I, I)(q), z3.IntVal(-1)), z3.Int('N'))
SKIP = lambda q: zmax(z3.Function('skip_length', I, I)(q), z3.IntVal(1))
LEAST = lambda q: zmax(z3.Function('num_least', I, I)(q), z3.IntVal(0))


def zmax(a, b):
    return z3.If(a >= b, a, b)


def zmin(a, b):
    return z3.If(a <= b, a, b)


BCFG = [(4, (dict(num_check_all=2, skip_length=2), dict(num_check_all=-1, skip_length=3))), (5, (dict(num_check_all=0, skip_length=2), dict(num_check_all=3, skip_length=1))),
        (1, (dict(), dict(num_check_all=1)))]


def _mk13(first, last, least, default=False):
    keep = dict(keep_first=first, keep_last=last)
    name = 'subsample_constraints default configuration' if default else f'subsample_constraints first={first} last={last} least={least}'

    @case('C13', name, bvariants=[None] if default else BCFG)
    def c(ctx):
        eng = ctx.engine()
        nu, nx, nc, nd = [ctx.dim(k, v) for k, v in zip(('nu', 'nx', 'nc', 'nd'), (1, 1, 2, 0))]
        if ctx.bounded:
            N, cfgs = (3, (dict(), dict())) if default else ctx.variant
            bl = (2, 1)
            cfg = None if default else lambda ix: dict(cfgs[ix.as_long()], **keep, **(dict(subsample_constraints_num_least=bl[ix.as_long()]) if least else {}))
        else:
            N = z3.Int('N')
            cfg = None if default else lambda ix: dict(num_check_all=NCA(ix), skip_length=SKIP(ix), **keep, **(dict(subsample_constraints_num_least=LEAST(ix)) if least else {}))
        W = Arr((simp(zi(nc) * N), nu), None, z3.Const('W', MAT))
        b = Arr((simp(zi(nc) * N), ), None, z3.Const('bb', VEC))
        V = Arr((nc, N), None, z3.Const('V', MAT))

        def thunk():
            dims_pos(eng, (nu, 1), (nx, 1), (nc, 0), (nd, 0), (N, 1))
            U = implicit_asif(eng, nu, nx, nc, nd, jit=False, slack=False, window=z3.Real('window'), subsample=cfg)
            r = eng.call(eng.getattr(U.obj, 'subsample_constraints'), [W, b, V, N], {})
            return U, r

        for o in ctx.run(thunk):
            ctx.at(o)
            U, r = o.value
            W2, b2 = [arr(eng, x) for x in r]
            if ctx.bounded:
                pos = 0
                tot = [simp(W2.shape[0]), simp(b2.shape[0])]
                blocks = []
                for q in range(nc):
                    pts = kept_points(N, cfgs[q].get('num_check_all', -1), cfgs[q].get('skip_length', 1))
                    if least:
                        vals = Arr((len(pts), ), lambda t: V.at(q, pts[t]) if isinstance(t, int) else pick_(pts, t, lambda x: V.at(q, x)))
                        perm = lib.ARGSORT(zi(len(pts)), vals.as_term())
                        pts = [pick_(pts, z3.Select(perm, t), zi) for t in range(min(len(pts), bl[q]))]
                    blocks.append([zi(x) + q * N for x in pts + ([0] if first else []) + ([N - 1] if last else [])])
                n = sum(map(len, blocks))
                ctx.require(o, 'number of points kept', z3.BoolVal(tot == [n, n]))
                if tot != [n, n]:
                    continue
                for q, blk in enumerate(blocks):
                    same_ = lambda j, x: z3.And(eq(b2.at(j), z3.Select(b.term, x)), *[eq(W2.at(j, k), z3.Select(W.term, x, k)) for k in range(nu)])
                    js = range(pos, pos + len(blk))
                    for x in blk:
                        ctx.require(o, f'constraint {q}: every configured point is kept', z3.Or(*[same_(j, x) for j in js]))
                    for j in js:
                        ctx.require(o, f'constraint {q}: only configured points are kept', z3.Or(*[same_(j, x) for x in blk]))
                    pos += len(blk)
                continue
            q, p, k = z3.Int('%q'), z3.Int('%p'), z3.Int('%k')
            rng = [q >= 0, q < nc, p >= 0]
            if default:
                total, kept = zi(N), p
            else:
                nca, skip = NCA(q), SKIP(q)
                lead = zmax(nca, z3.IntVal(0))
                cnt = lead + zmax(z3.IntVal(0), (N - nca - 1 + skip - 1) / skip)
                pnt = lambda t: z3.If(t < lead, t, nca + 1 + (t - lead) * skip)
                sel, pick = cnt, pnt
                if least:
                    vals = Arr((cnt, ), lambda t: V.at(q, pnt(zi(t))))
                    perm = lib.ARGSORT(cnt, vals.as_term())
                    sel = zmin(cnt, LEAST(q))
                    pick = lambda t: pnt(z3.Select(perm, t))
                total = sel + int(first) + int(last)
                kept = z3.If(p < sel, pick(p), z3.If(z3.BoolVal(first and last), z3.If(p == sel, z3.IntVal(0), N - 1), z3.IntVal(0) if first else N - 1))
            for nm, A in (('weights', W2), ('constants', b2)):
                segs = A.segs[1] if A.segs is not None and A.segs[0] == 0 else None
                segs = [s for s in segs or [] if not (not s.fam and simp(s.arr.shape[0]) == 0)]
                if len(segs) != 1 or not segs[0].fam:
                    raise Undecided('kept rows are not built constraint by constraint')
                ctx.require(o, f'{nm}: one block per constraint, in order', zi(segs[0].n) == zi(nc))
                blk = subst(segs[0].arr, [(segs[0].ivar, q)])
                ctx.require(o, f'{nm}: number of points kept', zi(blk.shape[0]) == total, extra=rng[:2])
                if A.ndim == 2:
                    ctx.require(o, 'weights: exactly the configured points', eq(blk.at(p, k), z3.Select(W.term, q * N + kept, k)), extra=rng + [p < total, k >= 0, k < nu])
                else:
                    ctx.require(o, 'constants: exactly the configured points', eq(blk.at(p), z3.Select(b.term, q * N + kept)), extra=rng + [p < total])
    return c


def pick_(xs, t, f):
    r = f(xs[-1])
    for k, x in reversed(list(enumerate(xs[:-1]))):
        r = site(zi(t) == k, f(x), r)
    return r


_mk13(False, False, False, True)
for _f in (False, True):
    for _l in (False, True):
        for _n in (False, True):
            _mk13(_f, _l, _n)

from fractions import Fraction      # noqa
_mk12('none', 'none', False, False)
_mk12('none', 'none', True, False)
_mk12('scalar', 'vector', True, True)
_mk12('scalar', 'none', False, True)
_mk12('none', 'none', True, False, 'C13', dict(num_check_all=1, skip_length=2, keep_last=True))
_mk12('none', 'none', False, False, 'C13', dict(num_check_all=-1, skip_length=3, keep_first=True))
