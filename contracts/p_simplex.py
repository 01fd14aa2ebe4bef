"""C04 C05 C06 C07 (+C01 C03 C18): the simplex filters for every dynamics, constraint family, controller and internal state"""
from fractions import Fraction
from contracts.users import *       # noqa
from contracts.framework import *   # noqa
from contracts.p_base import frame_obligations


def clipped(U, v):
    """spec: vector clipped to the actuator limits"""
    if U.lo == 'none' and U.hi == 'none':
        return v
    return Arr((U.nu, ), lambda k: clip(v.at(k), b_at(U, 'lo', k), b_at(U, 'hi', k)))


def run_explicit(ctx, lo, hi, jit, dynamic=True, kind='ExplicitSimplexModule', window=None, cjit=True):
    eng = ctx.engine()
    nu, nx, nc = ctx.dim('nu', 2), ctx.dim('nx', 2), ctx.dim('nc', 2)
    S = {}

    def thunk():
        dims_pos(eng, (nu, 1), (nx, 1), (nc, 0))
        U = simplex(eng, kind, nu, nx, nc, lo, hi, jit, window=window, cjit=cjit)
        put(eng, U.obj, 'enable', True)
        if dynamic:
            havoc_constraints(eng, U.F)
        u = eng.new_np(vec('u', nu))
        st = eng.new_np(vec('st', nx))
        S['U'] = U
        if window is not None:
            eng.assume(z3.Real('dt') > 0)
            eng.assume(z3.Real('window') >= 0)
        r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, z3.Real('dt'), u], {})
        return U, u, st, r

    return eng, ctx.run(thunk)


def spec_explicit(eng, U, dynamic=True):
    F = U.F
    par, en = (F.par_now, F.en_now) if dynamic else (F.par, F.en)
    nu, nx = U.nu, U.nx
    dt = z3.Real('dt')
    xt = term(eng, vec('st', nx))
    ut = term(eng, clipped(U, vec('u', nu)))
    nxt = term(eng, U.PRED(xt, dt, ut))
    v = viol(U, nxt, par, en)
    latched = z3.And(z3.Bool('iv'), z3.Real('le') < z3.Real('latch'))
    back = clipped(U, U.BCF(xt, dt, z3.Const('cs0', CS)))
    des = clipped(U, vec('u', nu))
    return dict(viol=v, latched=latched, back=back, des=des, on=z3.Or(latched, v), cs=U.BCS(xt, dt, z3.Const('cs0', CS)))


def flag(eng, obj, name):
    return zb(eng.truth(eng.getattr(obj, name)))


def post_switch(ctx, eng, o, U, r, sp, what='control'):
    ra = arr(eng, r)
    ctx.require(o, 'length kept', zi(ra.shape[0]) == zi(U.nu))
    ctx.forall(o, f'{what}: backup exactly when switched, else the desired control within limits', U.nu,
               lambda k: eq(ra.at(k), site(sp['on'], sp['back'].at(k), sp['des'].at(k))))
    ctx.require(o, 'intervening exactly when switched', flag(eng, U.obj, 'intervening') == sp['on'])


def _mk04(lo, hi, jit):
    @case('C04', f'ExplicitSimplexModule.filter_control low={lo} high={hi} jit={jit}')
    def c(ctx):
        eng, outs = run_explicit(ctx, lo, hi, jit)
        for o in outs:
            ctx.at(o)
            U, u, st, r = o.value
            post_switch(ctx, eng, o, U, r, spec_explicit(eng, U))


for _jit in (True, False):
    for _lo, _hi in (('none', 'none'), ('scalar', 'vector'), ('list', 'none'), ('none', 'scalar')):
        _mk04(_lo, _hi, _jit)


def _mk06(jit, lo, hi):
    @case('C06', f'simplex latch jit={jit} low={lo} high={hi}')
    def c(ctx):
        eng, outs = run_explicit(ctx, lo, hi, jit)
        for o in outs:
            ctx.at(o)
            U, u, st, r = o.value
            sp = spec_explicit(eng, U)
            post_switch(ctx, eng, o, U, r, sp)
            le = eng.getattr(U.obj, 'latched_elapsed')
            ctx.require(o, 'elapsed latch time advances while latched and restarts otherwise',
                        eq(le, site(sp['latched'], z3.Real('le') + z3.Real('dt'), z3.RealVal(0))))
            ctx.require(o, 'invariant: the elapsed latch time is never negative', zr(le) >= 0, extra=[z3.Real('dt') >= 0])


_mk06(True, 'none', 'none')
_mk06(False, 'scalar', 'scalar')


@case('C06', 'latch history lemma')
def c06_hist(ctx):
    """Lemma over the contract just proved: with le' and on' as above, after a switch at call 0 (not latched) the filter stays switched on every
    following call k while (k-1)*dt < latch; proved by induction over the calls (constant step)."""
    eng = ctx.engine()
    dt, L = z3.Reals('dt latch')
    k = z3.Int('k')
    le = z3.Real('le')
    viol_ = z3.Bool('viol')
    o = None
    # invariant after call k (k>=0) following the switch, while (k-1)*dt<latch:   on, le == k*dt
    hyp = [dt > 0, L >= 0, k >= 0, le == z3.ToReal(k) * dt]
    latched = le < L
    ctx.covers.append((eng, [hyp]))
    ctx.require(o, 'base: switching call leaves elapsed 0', z3.RealVal(0) == z3.ToReal(z3.IntVal(0)) * dt)
    ctx.require(o, 'step: next call is on backup while the elapsed time is below the latch time', z3.Implies(latched, z3.Or(latched, viol_)), extra=hyp)
    ctx.require(o, 'step: elapsed time after the next latched call', z3.Implies(latched, le + dt == z3.ToReal(k + 1) * dt), extra=hyp)
    ctx.require(o, 'release: once elapsed reaches the latch time the monitor alone decides', z3.Implies(z3.Not(latched), z3.Or(latched, viol_) == viol_), extra=hyp)


def _mk07(jit, cjit):
    @case('C07', f'explicit simplex uses current parameters and enable flags jit={jit} cjit={cjit}')
    def c(ctx):
        eng, outs = run_explicit(ctx, 'none', 'none', jit, cjit=cjit)
        for o in outs:
            ctx.at(o)
            U, u, st, r = o.value
            post_switch(ctx, eng, o, U, r, spec_explicit(eng, U))


_mk07(True, True)
_mk07(False, True)
_mk07(True, False)


@case('C03', 'explicit simplex frame')
def c03s(ctx):
    for jit in (True, False):
        eng, outs = run_explicit(ctx, 'none', 'scalar', jit)
        for o in outs:
            ctx.at(o)
            U, u, st, r = o.value
            frame_obligations(ctx, o, eng, U.obj, u, st, r, U.nu, U.nx)


@case('C18', 'explicit simplex advances the controller only when applied')
def c18s(ctx):
    eng, outs = run_explicit(ctx, 'none', 'scalar', True)
    for o in outs:
        ctx.at(o)
        U, u, st, r = o.value
        sp = spec_explicit(eng, U)
        cs = eng.force(eng.getattr(U.bc, 'controller_state'))
        cases = cs.cases if isinstance(cs, UVal) else [(z3.BoolVal(True), cs)]
        for g, v in cases:
            ctx.require(o, 'controller state', csterm(eng, v) == z3.If(sp['on'], sp['cs'], z3.Const('cs0', CS)), extra=[zb(g)])


# ---------------------------------------------------------------------------------------- implicit simplex

WINS = (Fraction(1, 4), Fraction(1, 2), Fraction(5, 4))     # whole steps of 1/2: 0, 1, 2

def run_implicit(ctx, lo, hi, jit, cdict=None):
    eng = ctx.engine()
    nu, nx, nc = ctx.dim('nu', 2), ctx.dim('nx', 2), ctx.dim('nc', 2)
    dt = Fraction(1, 2) if ctx.bounded else z3.Real('dt')
    win = (Fraction(7, 5) if ctx.variant is None else ctx.variant) if ctx.bounded else z3.Real('window')

    def thunk():
        dims_pos(eng, (nu, 1), (nx, 1), (nc, 0))
        if not ctx.bounded:
            eng.assume(dt > 0)
            eng.assume(win >= 0)
        U = simplex(eng, 'ImplicitSimplexModule', nu, nx, nc, lo, hi, jit, window=win)
        put(eng, U.obj, 'enable', True)
        havoc_constraints(eng, U.F)
        u = eng.new_np(vec('u', nu))
        st = eng.new_np(vec('st', nx))
        r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, dt, u], {})
        return U, u, st, r

    return eng, ctx.run(thunk), dt, win


def spec_implicit(ctx, eng, U, dt, win):
    F = U.F
    dtz = zr(dt)
    xt = term(eng, vec('st', U.nx))
    cs0 = z3.Const('cs0', CS)
    x0 = term(eng, U.PRED(xt, dtz, term(eng, clipped(U, vec('u', U.nu)))))
    step_x = lambda x, cs: term(eng, U.PRED(x, dtz, term(eng, clipped(U, U.BCF(x, dtz, cs)))))
    if ctx.bounded:
        N = int(win / dt)
        xs, cs = [x0], cs0
        for _ in range(N):
            nx_ = step_x(xs[-1], cs)
            cs = U.BCS(xs[-1], dtz, cs)
            xs.append(nx_)
        v = z3.Or(*[viol(U, x, F.par_now, F.en_now) for x in xs])
    else:
        i, c, X = z3.Int('%si'), z3.Const('%sc', CS), z3.Const('%sx', VEC)
        fX, fC = loops.recur(eng, [x0, cs0], [step_x(X, c), U.BCS(X, dtz, c)], i, [X, c])
        N = z3.ToInt(win / dt)
        k = z3.Int('pk')
        v = z3.Exists([k], z3.And(k >= 0, k <= N, viol(U, fX(k), F.par_now, F.en_now)))
    latched = z3.And(z3.Bool('iv'), z3.Real('le') < z3.Real('latch'))
    back = clipped(U, U.BCF(xt, dtz, cs0))
    return dict(viol=v, latched=latched, back=back, des=clipped(U, vec('u', U.nu)), on=z3.Or(latched, v), cs=U.BCS(xt, dtz, cs0))


def _mk05(lo, hi, jit):
    @case('C05', f'ImplicitSimplexModule.filter_control low={lo} high={hi} jit={jit}', bvariants=WINS)
    def c(ctx):
        eng, outs, dt, win = run_implicit(ctx, lo, hi, jit)
        for o in outs:
            ctx.at(o)
            U, u, st, r = o.value
            post_switch(ctx, eng, o, U, r, spec_implicit(ctx, eng, U, dt, win))


for _jit in (True, False):
    for _lo, _hi in (('none', 'none'), ('scalar', 'vector')):
        _mk05(_lo, _hi, _jit)


@case('C18', 'implicit simplex look-ahead restores the controller', bvariants=WINS)
def c18i(ctx):
    eng, outs, dt, win = run_implicit(ctx, 'none', 'scalar', True)
    for o in outs:
        ctx.at(o)
        U, u, st, r = o.value
        sp = spec_implicit(ctx, eng, U, dt, win)
        cs = eng.force(eng.getattr(U.bc, 'controller_state'))
        cases = cs.cases if isinstance(cs, UVal) else [(z3.BoolVal(True), cs)]
        for g, v in cases:
            ctx.require(o, 'controller state', csterm(eng, v) == z3.If(sp['on'], sp['cs'], z3.Const('cs0', CS)), extra=[zb(g)])


@case('C07', 'implicit simplex uses current parameters and enable flags', bvariants=WINS)
def c07i(ctx):
    eng, outs, dt, win = run_implicit(ctx, 'none', 'none', True)
    for o in outs:
        ctx.at(o)
        U, u, st, r = o.value
        post_switch(ctx, eng, o, U, r, spec_implicit(ctx, eng, U, dt, win))


@case('C03', 'implicit simplex frame', bvariants=WINS)
def c03i(ctx):
    eng, outs, dt, win = run_implicit(ctx, 'none', 'scalar', True)
    for o in outs:
        ctx.at(o)
        U, u, st, r = o.value
        frame_obligations(ctx, o, eng, U.obj, u, st, r, U.nu, U.nx)
