"""C09 C10 C11 (+C01 C03 C07): the explicit optimizing filter"""
from contracts.asif_users import *      # noqa
from contracts.harness import _args
from contracts.p_base import frame_obligations
from contracts.p_simplex import flag


def run_asif(ctx, lo='none', hi='none', jit=True, slack=True, nact=0, exc=False, allow=(), dims=(2, 2, 3, 2), dynamic=True, cjit=True):
    eng = ctx.engine()
    if slack and ctx.bounded:
        slack = (True, False, True)[-dims[2]:]
    nu, nx, nc, nd = [ctx.dim(k, v) for k, v in zip(('nu', 'nx', 'nc', 'nd'), dims)]

    def thunk():
        dims_pos(eng, (nu, 1), (nx, 1), (nc, 0), (nd, 0))
        U = explicit_asif(eng, nu, nx, nc, nd, lo, hi, jit, slack, nact, exc, dynamic, cjit)
        u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx))
        try:
            r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, z3.Real('dt'), u], {})
        except PyRaise as e:
            raise e
        return U, u, st, r

    return eng, ctx.run(thunk, allow=allow)


def spec_row(eng, U, q):
    """spec: barrier row of constraint q: (weights over the control, constant)"""
    F = U.F
    q = zi(q)
    xt = term(eng, vec('st', U.nx))
    p = U.par(q)
    h = F.h(q, p, xt) + F.bias(q)
    gh = F.gh(q, p, xt)
    f, g = U.f(xt), U.g(xt)
    alp = z3.If(h < 0, z3.If(F.hasneg(q), F.aln(q, h), 10 * F.al(q, h)) + F.bneg(q), F.al(q, h))
    w = lambda k: lib._sum_fn(eng, U.nx, lambda j: smul(gh.at(j), g.at(j, k)))
    c = ssub(smul(-1, lib._sum_fn(eng, U.nx, lambda j: smul(gh.at(j), f.at(j)))), alp)
    return w, c


def slack_no(eng, U, q):
    """spec: number of slack constraints before q"""
    if isinstance(U.nc, int):
        return z3.Sum([z3.If(U.F.hs(z3.IntVal(j)), 1, 0) for j in range(q)] + [z3.IntVal(0)]) if isinstance(q, int) else None


def spec_rows(eng, U, ns):
    """bounded mode: list of (enabled condition, weight list of length nu+ns (z3), constant)"""
    xt = term(eng, vec('st', U.nx))
    rows = []
    n = U.nu + ns
    for which, sg in (('lo', 1), ('hi', -1)):
        if getattr(U, which) != 'none':
            for k in range(U.nu):
                rows.append((z3.BoolVal(True), [sg if j == k else 0 for j in range(n)], smul(sg, b_at(U, which, k))))
    for q in range(U.nc):
        w, c = spec_row(eng, U, q)
        sn = slack_no(eng, U, q)
        rows.append((U.en(zi(q)), [w(k) for k in range(U.nu)] + [z3.If(z3.And(U.F.hs(zi(q)), sn == j), z3.RealVal(-1), z3.RealVal(0)) for j in range(ns)], c))
    for q in range(U.nd):
        w = U.D.w(zi(q), U.D.par(zi(q)), xt)
        rows.append((U.D.en(zi(q)), [w.at(k) for k in range(U.nu)] + [0] * ns, U.D.c(zi(q), U.D.par(zi(q)), xt)))
    return rows


def qp_rows_bounded(ctx, o, eng, U, C, b, rows, free=None):
    n, m = simp(C.shape[0]), simp(C.shape[1])
    if not (isinstance(n, int) and isinstance(m, int)):
        raise Undecided(f"symbolic QP shape {C.shape}")
    ctx.require(o, 'as many constants as rows', zi(b.shape[0]) == m)
    ctx.require(o, 'row width is the number of variables', n == len(rows[0][1]) if rows else True)
    got = [([C.at(k, j) for k in range(n)], b.at(j)) for j in range(m)]
    same_ = lambda g, s: z3.And(*[eq(x, y) for x, y in zip(g[0], s[1])], eq(g[1], s[2]))
    for i, s in enumerate(rows):
        order = sorted(range(m), key=lambda j: abs(j - i))
        ctx.require(o, f'imposed condition {i} is handed to the solver', z3.Implies(s[0], z3.Or(*[same_(got[j], s) for j in order])))
    for j, g in enumerate(got):
        order = sorted(range(len(rows)), key=lambda i: abs(j - i))
        trivial = z3.And(*[eq(x, 0) for x in g[0]], zr(g[1]) <= 0)
        if free is not None:       # a disabled condition may still mention its own slack variable
            trivial = z3.Or(trivial, free(g))
        ctx.require(o, f'solver row {j} is one of the imposed conditions', z3.Or(trivial, *[z3.And(rows[i][0], same_(g, rows[i])) for i in order]))


def nslack(eng, U):
    v = eng.force(eng.getattr(U.obj, 'num_slack'))
    return simp(v)


def qp_rows_unbounded(ctx, o, eng, U, C, b, sn):
    """exact layout: low limits, high limits, constraints, direct"""
    nu, nc, nd = zi(U.nu), zi(U.nc), zi(U.nd)
    ns = nslack(eng, U)
    k, q = z3.Int('%k'), z3.Int('%q')
    off = z3.IntVal(0)
    xt = term(eng, vec('st', U.nx))
    ctx.require(o, 'row width', zi(C.shape[0]) == nu + zi(ns))
    kr = [k >= 0, k < nu + zi(ns)]
    for which, sg in (('lo', 1), ('hi', -1)):
        if getattr(U, which) != 'none':
            r = [q >= 0, q < nu]
            ctx.require(o, f'{which} limit row', z3.And(eq(C.at(k, off + q), z3.If(k == q, z3.RealVal(sg), z3.RealVal(0))),
                                                      eq(b.at(off + q), smul(sg, b_at(U, which, q)))), extra=kr + r)
            off = off + nu
    w, c = spec_row(eng, U, q)
    r = [q >= 0, q < nc]
    en = U.en(q)
    z = z3.RealVal(0)
    ctx.require(o, 'barrier row weights', eq(C.at(k, off + q), z3.If(en, zr(w(k)), z)), extra=r + [k >= 0, k < nu])
    ctx.require(o, 'barrier row constant', eq(b.at(off + q), z3.If(en, zr(c), z)), extra=r)
    ctx.require(o, 'barrier row slack', eq(C.at(nu + k, off + q), z3.If(z3.And(en, U.F.hs(q), sn(q) == k), z3.RealVal(-1), z)), extra=r + [k >= 0, k < zi(ns)])
    off = off + nc
    dw = U.D.w(q, U.D.par(q), xt)
    r = [q >= 0, q < nd]
    ctx.require(o, 'direct row', eq(C.at(k, off + q), z3.If(z3.And(U.D.en(q), k < nu), zr(dw.at(k)), z)), extra=r + kr)
    ctx.require(o, 'direct constant', eq(b.at(off + q), z3.If(U.D.en(q), U.D.c(q, U.D.par(q), xt), z)), extra=r)
    ctx.require(o, 'number of rows', z3.And(zi(C.shape[1]) == off + nd, zi(b.shape[0]) == off + nd))


def _mk09(lo, hi, jit, slack, cjit=True, props='C09'):
    @case(props, f'ExplicitASIF conditions low={lo} high={hi} jit={jit} slack={slack} cjit={cjit}')
    def c(ctx):
        eng, outs = run_asif(ctx, lo, hi, jit, slack, allow=('ValueError', ), cjit=cjit)
        for o in outs:
            if o.kind == 'raise':
                continue
            ctx.at(o)
            U, u, st, r = o.value
            qs = qp_events(o)
            ctx.require(o, 'one solver call', len(qs) == 1)
            if len(qs) != 1:
                continue
            _, G, a, C, b, meq = qs[0]
            ctx.require(o, 'only inequality rows', zi(meq) == 0)
            ns = nslack(eng, U)
            if ctx.bounded:
                if not isinstance(ns, int):
                    raise Undecided('symbolic number of slack variables')
                qp_rows_bounded(ctx, o, eng, U, C, b, spec_rows(eng, U, ns))
            else:
                i = z3.Int('%ri')
                ps = loops.psum(eng, i, z3.If(U.F.hs(i), z3.IntVal(1), z3.IntVal(0))) if slack else None
                sn = (lambda t: ps.f(zi(t))) if ps is not None else (lambda t: z3.IntVal(0))
                qp_rows_unbounded(ctx, o, eng, U, C, b, sn)
    return c


for _a in (('none', 'none', True, False), ('scalar', 'vector', True, True), ('list', 'scalar', False, True), ('none', 'vector', True, True), ('vector', 'none', False, False)):
    _mk09(*_a)
_mk09('scalar', 'scalar', True, True, False)


# ------------------------------------------------------------------------------------------ C10 objective, output, report

def psd(eng, x):
    return lib.ssqrt(x)


def spec_scale(eng, U, k):
    """spec: weight of slack variable k (bounded mode)"""
    r = z3.RealVal(0)
    for q in range(U.nc):
        r = z3.If(z3.And(U.F.hs(zi(q)), slack_no(eng, U, q) == k), zr(lib.ssqrt(U.F.sp(zi(q)))), r)
    return r


def _mk10(lo, hi, jit, slack):
    @case('C10', f'ExplicitASIF objective, output and report low={lo} high={hi} jit={jit} slack={slack}')
    def c(ctx):
        eng, outs = run_asif(ctx, lo, hi, jit, slack, allow=('ValueError', ))
        for o in outs:
            if o.kind == 'raise':
                continue
            ctx.at(o)
            U, u, st, r = o.value
            qs = qp_events(o)
            if len(qs) != 1:
                ctx.require(o, 'one solver call', False)
                continue
            _, G, a, C, b, meq = qs[0]
            nu, ns = U.nu, nslack(eng, U)
            n = sadd(nu, ns)
            uv, x = vec('u', nu), vec('qpx', n)
            ctx.require(o, 'objective dimensions', z3.And(zi(G.shape[0]) == zi(n), zi(G.shape[1]) == zi(n), zi(a.shape[0]) == zi(n)))
            i, j = z3.Int('%i'), z3.Int('%j')
            if isinstance(n, int):
                for ii in range(n):
                    for jj in range(n):
                        want = (1 if ii < nu else spec_scale(eng, U, ii - nu)) if ii == jj else 0
                        ctx.require(o, f'objective weight [{ii},{jj}]', eq(G.at(ii, jj), want))
                    ctx.require(o, f'objective target [{ii}]', eq(a.at(ii), uv.at(ii) if ii < nu else 0))
            else:
                rng = [i >= 0, i < zi(n), j >= 0, j < zi(n)]
                ctx.require(o, 'objective weight off the diagonal', eq(G.at(i, j), 0), extra=rng + [i != j])
                ctx.require(o, 'objective weight of the control', eq(G.at(i, i), 1), extra=[i >= 0, i < zi(nu)])
                if slack:
                    f = loops.make_filter(eng, j, U.F.hs(j), zi(U.nc))
                    ctx.require(o, 'objective weight of the slack', eq(G.at(zi(nu) + i, zi(nu) + i), lib.ssqrt(U.F.sp(f.sel(i)))), extra=[i >= 0, i < zi(ns)] + f.inst_sel(i))
                ctx.require(o, 'objective target', eq(a.at(i), z3.If(i < zi(nu), zr(uv.at(i)), z3.RealVal(0))), extra=[i >= 0, i < zi(n)])
            infeasible = U.Q.infeasible
            if eng.entails(infeasible):
                sol = lambda k: uv.at(k)
            elif eng.entails(z3.Not(infeasible)):
                sol = lambda k: x.at(k)
            else:
                sol = lambda k: z3.If(infeasible, zr(uv.at(k)), zr(x.at(k)))
            ra = arr(eng, r)
            ctx.require(o, 'length kept', zi(ra.shape[0]) == zi(nu))
            ctx.forall(o, 'returned control is the optimum within the limits', nu, lambda k: eq(ra.at(k), clip(sol(k), b_at(U, 'lo', k), b_at(U, 'hi', k))))
            dev = lib._sum_fn(eng, nu, lambda k: smul(ssub(uv.at(k), sol(k)), ssub(uv.at(k), sol(k))))
            ctx.require(o, 'intervening exactly beyond the threshold', flag(eng, U.obj, 'intervening') == (zr(lib.ssqrt(dev)) > z3.Real('eps')))


for _a in (('none', 'none', True, False), ('scalar', 'vector', True, True), ('vector', 'scalar', False, True)):
    _mk10(*_a)


def name_cases(eng, v):
    return v.cases if isinstance(v, UVal) else [(z3.BoolVal(True), v)]


def str_is(eng, v, want):
    """condition that string value v equals want (SymStr/str)"""
    out = []
    for g, s in name_cases(eng, v):
        if isinstance(s, UVal):
            e = str_is(eng, s, want)
        else:
            try:
                e = lib.str_eq(eng, s, want)
            except Unsupported:
                e = False
        out.append(z3.And(zb(g), zb(e)))
    return z3.Or(*out)


def row_names(U, m_bar=None):
    names = []
    if U.lo != 'none':
        names += [f'u{k + 1}_min' for k in range(U.nu)]
    if U.hi != 'none':
        names += [f'u{k + 1}_max' for k in range(U.nu)]
    names += [f'con{q}' for q in range(U.nc)] + [f'dir{q}' for q in range(U.nd)]
    return names


def _mk10n(lo, hi, jit):
    @case('C10', f'ExplicitASIF names the active conditions low={lo} high={hi} jit={jit}')
    def c(ctx):
        eng, outs = run_asif(ctx, lo, hi, jit, True, nact=1, allow=('ValueError', ), dims=(2, 1, 2, 1))
        for o in outs:
            if o.kind == 'raise':
                continue
            ctx.at(o)
            U, u, st, r = o.value
            eng.assume(z3.Not(U.Q.infeasible))
            if not eng.feasible():
                continue
            lst = eng.force(eng.getattr(U.obj, 'constraints_causing_intervention'))
            segs = eng.cell(lst).segs
            ctx.require(o, 'one name per active condition', zi(eng.length(lst)) == 1)
            if len(segs) != 1 or segs[0].fam:
                continue
            v = segs[0].val
            t = z3.Int('qpact0') - 1
            if ctx.bounded:
                for j, nm in enumerate(row_names(U)):
                    ctx.require(o, f'name of condition {j}', z3.Implies(t == j, str_is(eng, v, nm)))
                continue
            nu, nc, nd = zi(U.nu), zi(U.nc), zi(U.nd)
            off = z3.IntVal(0)
            for which, suf in (('lo', '_min'), ('hi', '_max')):
                if getattr(U, which) != 'none':
                    ctx.require(o, f'name of {which} limits', z3.Implies(z3.And(t >= off, t < off + nu), str_is(eng, v, SymStr(['u', t - off + 1, suf]))))
                    off = off + nu
            ctx.require(o, 'name of barrier conditions', z3.Implies(z3.And(t >= off, t < off + nc), str_is(eng, v, SymStr([KeyPart('con', t - off)]))))
            off = off + nc
            ctx.require(o, 'name of direct conditions', z3.Implies(z3.And(t >= off, t < off + nd), str_is(eng, v, SymStr([KeyPart('dir', t - off)]))))


_mk10n('scalar', 'vector', True)
_mk10n('none', 'scalar', True)


# ------------------------------------------------------------------------------------------ C11 failure policy

@case('C11', 'ExplicitASIF solver failure policy')
def c11(ctx):
    for exc in (False, True):
        for lo, hi in (('scalar', 'vector'), ('none', 'none')):
            eng, outs = run_asif(ctx, lo, hi, True, False, exc=exc, allow=('ValueError', 'SolverError'), dims=(2, 1, 1, 1))
            kinds = {}
            for o in outs:
                ctx.at(o)
                Q = (z3.Bool('qp_inconsistent'), z3.Bool('qp_other_error'))
                warns = [e for e in o.state.events if e[0] == 'warn']
                if o.kind == 'raise':
                    nm = exc_name(o.value)
                    if nm == 'SolverError':
                        ctx.require(o, f'solver error only on inconsistency with exception={exc}', z3.And(Q[0], z3.Not(Q[1]), z3.BoolVal(exc)))
                    else:
                        ctx.require(o, f'other solver errors pass through unchanged exception={exc}', z3.And(Q[1], z3.BoolVal('not positive definite' in str(o.value.args))))
                    continue
                U, u, st, r = o.value
                uv = vec('u', U.nu)
                ra = arr(eng, r)
                ctx.require(o, 'no other solver error swallowed', z3.Not(Q[1]))
                ctx.require(o, f'inconsistency never ignored exception={exc}', z3.Implies(Q[0], z3.BoolVal(not exc and len(warns) >= 1)))
                ctx.require(o, 'no warning without failure', z3.Implies(z3.Not(Q[0]), z3.BoolVal(len(warns) == 0)))
                for w in warns:
                    ctx.require(o, 'the warning is the solver warning', z3.BoolVal('SolverWarning' in str(getattr(getattr(w[1], 'cls', None), 'name', ''))))
                ctx.forall(o, 'falls back to the desired control within the limits', U.nu,
                           lambda k: z3.Implies(Q[0], eq(ra.at(k), clip(uv.at(k), b_at(U, 'lo', k), b_at(U, 'hi', k)))))


# ------------------------------------------------------------------------------------------ C01 C02 C03 C07 for the optimizing filters

def _mkfr(lo, hi, jit):
    @case('C03', f'ExplicitASIF.filter_control frame low={lo} high={hi} jit={jit}')
    def c(ctx):
        eng, outs = run_asif(ctx, lo, hi, jit, True, allow=('ValueError', ), dims=(2, 1, 2, 1))
        for o in outs:
            if o.kind == 'raise':
                continue
            ctx.at(o)
            U, u, st, r = o.value
            frame_obligations(ctx, o, eng, U.obj, u, st, r, U.nu, U.nx)


_mkfr('scalar', 'vector', True)
_mkfr('none', 'none', False)
_mk09('scalar', 'vector', True, True, True, 'C07')
_mk09('none', 'none', False, False, True, 'C07')
