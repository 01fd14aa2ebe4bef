"""C01 C02 C03: the filter call itself (RTAModule.filter_control), for every compute_filtered_control"""
from contracts.users import *       # noqa
from contracts.framework import *   # noqa


def _filter_case(ctx, lo, hi, disabled=False):
    eng = ctx.engine()
    nu = ctx.dim('nu', 2)
    S = {}

    def thunk():
        dims_pos(eng, (nu, 1))
        U = raw_module(eng, nu)
        obj = eng.call(U.cls, [], {'control_bounds_low': bound_value(eng, lo, 'lo', nu), 'control_bounds_high': bound_value(eng, hi, 'hi', nu)})
        put(eng, obj, 'enable', False if disabled else True)
        put(eng, obj, 'intervening', z3.Bool('iv'))
        u = eng.new_np(vec('u', nu, 'np'))
        st = eng.new_np(vec('st', nu, 'np'))
        S['U'] = U
        snap = dict(eng.st.heap)
        r = eng.call(eng.getattr(obj, 'filter_control'), [st, z3.Real('dt'), u], {})
        return obj, u, st, r, snap

    outs = ctx.run(thunk)
    return eng, nu, S['U'], outs


def _mk01(lo, hi):
    @case('C01', f'RTAModule.filter_control limits low={lo} high={hi}')
    def c(ctx):
        eng, nu, U, outs = _filter_case(ctx, lo, hi)
        for o in outs:
            ctx.at(o)
            obj, u, st, r, snap = o.value
            ra = arr(eng, r)

            def within(k):
                l, h = bound_at(lo, 'lo', k, nu), bound_at(hi, 'hi', k, nu)
                pre = z3.BoolVal(True) if l is None or h is None else zr(l) <= zr(h)
                g = []
                if l is not None:
                    g.append(zr(ra.at(k)) >= zr(l))
                if h is not None:
                    g.append(zr(ra.at(k)) <= zr(h))
                g.append(eq(ra.at(k), clip(U.raw.at(k), l, h)))
                return z3.Implies(pre, z3.And(*g))

            ctx.require(o, 'length kept', zi(ra.shape[0]) == zi(nu))
            ctx.forall(o, 'within limits and saturated from the raw control', nu, within)
            vec_eq(ctx, o, 'recorded actual', eng, eng.getattr(obj, 'control_actual'), lambda k: ra.at(k), nu)
    return c


for _lo in BOUNDS:
    for _hi in BOUNDS:
        _mk01(_lo, _hi)


@case('C02', 'RTAModule.filter_control disabled')
def c02(ctx):
    for lo, hi in (('scalar', 'vector'), ('none', 'none'), ('list', 'scalar')):
        eng, nu, U, outs = _filter_case(ctx, lo, hi, disabled=True)
        for o in outs:
            ctx.at(o)
            obj, u, st, r, snap = o.value
            vec_eq(ctx, o, 'desired control returned', eng, r, lambda k: vec('u', nu).at(k), nu)
            ctx.require(o, 'filter not consulted', len([e for e in o.state.events if e[0] == 'cfc']) == 0)
            ctx.require(o, 'reports no intervention', z3.Not(zb(eng.truth(eng.getattr(obj, 'intervening')))))
            ctx.require(o, 'stays disabled', z3.Not(zb(eng.truth(eng.getattr(obj, 'enable')))))
            vec_eq(ctx, o, 'recorded actual', eng, eng.getattr(obj, 'control_actual'), lambda k: vec('u', nu).at(k), nu)


@case('C03', 'RTAModule.filter_control frame')
def c03(ctx):
    for dis in (False, True):
        for lo, hi in (('none', 'none'), ('vector', 'scalar')):
            eng, nu, U, outs = _filter_case(ctx, lo, hi, disabled=dis)
            for o in outs:
                ctx.at(o)
                obj, u, st, r, snap = o.value
                frame_obligations(ctx, o, eng, obj, u, st, r, nu, nu)


def frame_obligations(ctx, o, eng, obj, u, st, r, nu, nx, uname='u', stname='st'):
    vec_eq(ctx, o, 'desired control argument unchanged', eng, u, lambda k: vec(uname, nu).at(k), nu)
    vec_eq(ctx, o, 'state argument unchanged', eng, st, lambda k: vec(stname, nx).at(k), nx)
    cd, ca = eng.force(eng.getattr(obj, 'control_desired')), eng.force(eng.getattr(obj, 'control_actual'))
    vec_eq(ctx, o, 'recorded desired', eng, cd, lambda k: vec(uname, nu).at(k), nu)
    ra = arr(eng, r)
    vec_eq(ctx, o, 'recorded actual equals returned', eng, ca, lambda k: ra.at(k), nu)
    bufs = {'argument u': u, 'argument state': st, 'returned': eng.force(r), 'recorded desired': cd, 'recorded actual': ca}
    ns = list(bufs)
    for a in range(len(ns)):
        for b in range(a + 1, len(ns)):
            x, y = bufs[ns[a]], bufs[ns[b]]
            if isinstance(x, Ref) and isinstance(y, Ref):
                bx, by = buffer_ids(eng, x), buffer_ids(eng, y)
                ctx.require(o, f'{ns[a]} and {ns[b]} are distinct buffers', z3.Not(z3.Or(*[z3.And(g, h) for g, i in bx for h, j in by if i == j])))


def buffer_ids(eng, r):
    """[(guard, base buffer)]"""
    c = eng.st.heap[r.id]
    while getattr(c, 'view_of', None) is not None:
        r = c.view_of
        c = eng.st.heap[r.id]
    parts = eng.st.ghost.get(('parts', r.id))
    if not parts:
        return [(z3.BoolVal(True), r.id)]
    return [(z3.And(g, h), j) for g, i in parts for h, j in buffer_ids(eng, Ref(i))]
