"""C08 C15 C17 C18 C19 C20 C26"""
from fractions import Fraction
from contracts.users import *
from contracts.harness import _args       # noqa
from contracts.framework import *   # noqa
from contracts.p_simplex import clipped, post_switch, flag, spec_explicit
from pyver.values import SymStr, KeyPart, FamRef, Opaque

ZOO = 'run_time_assurance.zoo.'


# ------------------------------------------------------------------------------------------ C08 selection

def _mk08(jit):
    @case('C08', f'constraints_to_use jit={jit}')
    def c(ctx):
        eng = ctx.engine()
        nu, nx, nc = ctx.dim('nu', 2), ctx.dim('nx', 2), ctx.dim('nc', 3)
        names = Opaque(z3.Const('names', z3.DeclareSort('NameList')), ('list', ))

        def thunk():
            dims_pos(eng, (nu, 1), (nx, 1), (nc, 0))
            U = simplex(eng, 'ExplicitSimplexModule', nu, nx, nc, 'none', 'none', jit, constraints_to_use=names)
            put(eng, U.obj, 'enable', True)
            havoc_constraints(eng, U.F)
            u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx))
            r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, z3.Real('dt'), u], {})
            return U, r

        outs = ctx.run(thunk, allow=('ValueError', ))
        if isinstance(nc, int):
            mem = lambda q: z3.Bool(f'member_names_con{z3.simplify(zi(q))}')
            anym = z3.Or(*[mem(k) for k in range(nc)])
        else:
            mf = z3.Function('member_names_con', I, B)
            mem = lambda q: mf(q)
            j = z3.Int('mj')
            anym = z3.Exists([j], z3.And(j >= 0, j < nc, mf(j)))
        for o in outs:
            if not ctx.bounded:
                fi = z3.Int('%fj')
                for ax in loops.make_filter(eng, fi, mf(fi), zi(nc)).axioms():
                    o.state.pc.append(('fact', ax))
            ctx.at(o)
            if o.kind == 'raise':
                ctx.require(o, 'construction fails only when no name matches', z3.Not(anym))
                continue
            U, r = o.value
            kept = [s for s in eng.cell(eng.force(eng.getattr(U.obj, 'constraints'))).segs]
            if ctx.bounded:
                got = [str(s.key) for s in kept]
                want = [(q, f'con{q}') for q in range(nc)]
                ctx.require(o, 'exactly the named constraints are kept', z3.And(*[mem(q) == z3.BoolVal(k in got) for q, k in want]))
                ctx.require(o, 'kept constraints stay in their original order', z3.BoolVal(got == [k for _, k in want if k in got]))
            if not ctx.bounded:
                fl = loops.make_filter(eng, fi, mf(fi), zi(nc))
                j = z3.Int('%kj')
                ctx.require(o, 'as many constraints are kept as names match', zi(eng.length(eng.getattr(U.obj, 'constraints'))) == fl.total)
                ok = len(kept) == 1 and kept[0].fam and lib.key_part(kept[0].key) is not None
                if not ok:
                    raise Undecided('form of the kept constraints')
                sv = fl.sel(j) if getattr(kept[0], 'filt', None) is not None else j
                idx = z3.substitute(zi(lib.key_part(kept[0].key).idx), (kept[0].ivar, sv))
                if getattr(kept[0], 'filt', None) is not None and kept[0].filt is not fl:
                    raise Undecided('selection by another filter')
                ctx.require(o, 'the j-th kept name is the j-th matching one', idx == fl.sel(j), extra=[j >= 0, j < fl.total])
            ctx.require(o, 'construction succeeds only when some name matches', anym)
            F = U.F
            en0 = F.en_now
            F2 = type('F', (), {})()
            sp = spec_with(eng, U, lambda q: z3.And(en0(q), mem(q)))
            post_switch(ctx, eng, o, U, r, sp)


def spec_with(eng, U, en):
    old = U.F.en_now
    U.F.en_now = en
    try:
        return spec_explicit(eng, U)
    finally:
        U.F.en_now = old


_mk08(True)
_mk08(False)


@case('C08', 'constraints_to_use: given lists of names', modes='B')
def _c08_lists(ctx):
    """bounded: three constraints, name lists in other orders, with unknown and repeated names"""
    eng = ctx.engine()
    for names in (['con2', 'con0'], ['con1', 'other', 'con1'], ['con2', 'con1', 'con0'], ['other']):
        def thunk():
            return simplex(eng, 'ExplicitSimplexModule', 1, 1, 3, 'none', 'none', False, constraints_to_use=eng.new_list(names))
        for o in eng.run(thunk):
            ctx.at(o)
            if o.kind == 'raise':
                ctx.require(o, 'construction fails only when no name matches', z3.BoolVal(names == ['other']))
                continue
            ctx.require(o, 'construction succeeds only when some name matches', z3.BoolVal(names != ['other']))
            got = [str(s.key) for s in eng.cell(eng.force(eng.getattr(o.value.obj, 'constraints'))).segs]
            ctx.require(o, 'exactly the named constraints, in their original order', z3.BoolVal(got == [k for k in ('con0', 'con1', 'con2') if k in names]))


# ------------------------------------------------------------------------------------------ C15 cascade

def cascade(ctx, lo, hi, reset=False):
    eng = ctx.engine()
    nu, n = ctx.dim('nu', 2), ctx.dim('n_members', 3)
    OUT = uf_vec('member_out', nu, I, VEC, R, VEC)
    IV = z3.Function('member_iv', I, VEC, R, VEC, B)
    RM = eng.get_class(RB + 'RTAModule')

    def tag(e, s):
        return zi(s.idx) if isinstance(s, FamRef) else zi(e.getattr(s, '$idx'))

    def fc(e, a, kw):
        s, st, dt, u = _args(e, a, kw, ('self', 'input_state', 'step_size', 'control_desired'))
        t = (tag(e, s), term(e, st), zr(dt), term(e, u))
        e.setattr(s, 'intervening', IV(*t))
        return e.new_np(OUT(*t))

    def rs(e, a, kw):
        e.setattr(a[0], 'was_reset', True)

    M = user_class(eng, 'Member', RM, {'filter_control': fc, 'reset': rs})

    def thunk():
        dims_pos(eng, (nu, 1), (n, 0))
        if isinstance(n, int):
            items = [eng.alloc(ObjCell(M, {'$idx': q, 'intervening': z3.Bool(f'miv{q}'), 'was_reset': False})) for q in range(n)]
            lst = eng.new_list(items)
            fid = items
        else:
            i = z3.Int('mi')
            fcell = FamCell('member', 'obj', n, i, M, {'intervening': z3.Function('miv', I, B)(i), 'was_reset': False})
            fid = eng.new_fam(fcell)
            lst = eng.alloc(ListCell([ListSeg(FamRef(fid, i), n, i)]))
        C = user_class(eng, 'UserCascade', eng.get_class(RB + 'CascadedRTA'), {'_setup_rta_list': lambda e, a, kw: lst})
        obj = eng.call(C, [], {'control_bounds_low': bound_value(eng, lo, 'lo', nu), 'control_bounds_high': bound_value(eng, hi, 'hi', nu)})
        put(eng, obj, 'intervening', z3.Bool('iv'))
        if reset:
            put(eng, obj, 'enable', z3.Bool('en'))
            eng.call(eng.getattr(obj, 'reset'), [], {})
            return obj, fid
        u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nu))
        r = eng.call(eng.getattr(obj, 'filter_control'), [st, z3.Real('dt'), u], {})
        return obj, u, st, r

    return eng, nu, n, OUT, IV, ctx.run(thunk)


def _mk15(lo, hi):
    @case('C15', f'CascadedRTA.filter_control low={lo} high={hi}')
    def c(ctx):
        eng, nu, n, OUT, IV, outs = cascade(ctx, lo, hi)
        xt, dt = term(eng, vec('st', nu)), z3.Real('dt')
        u0 = term(eng, vec('u', nu))
        for o in outs:
            ctx.at(o)
            obj, u, st, r = o.value
            ra = arr(eng, r)
            if isinstance(n, int):
                v, iv = u0, []
                last = vec('u', nu)
                for q in range(n):
                    iv.append(IV(zi(q), xt, dt, v))
                    last = OUT(zi(q), xt, dt, v)
                    v = term(eng, last)
                ivs = z3.Or(*iv) if iv else z3.BoolVal(False)
            else:
                i, X = z3.Int('%si'), z3.Const('%sx', VEC)
                b = z3.Bool('%sb')
                f, g = loops.recur(eng, [u0, z3.BoolVal(False)], [OUT(i, xt, dt, X).term, z3.Or(b, IV(i, xt, dt, X))], i, [X, b])
                ivs = g(n)      # some member of the first n intervened
                last = Arr((nu, ), None, f(n))
            ctx.forall(o, 'members applied in order, last output limited', nu,
                       lambda k: z3.Implies(bounds_ok(lo, hi, k, nu), eq(ra.at(k), clip(last.at(k), bound_at(lo, 'lo', k, nu), bound_at(hi, 'hi', k, nu)))))
            ctx.require(o, 'intervening exactly when a member intervenes', flag(eng, obj, 'intervening') == ivs)


def bounds_ok(lo, hi, k, nu):
    l, h = bound_at(lo, 'lo', k, nu), bound_at(hi, 'hi', k, nu)
    return z3.BoolVal(True) if l is None or h is None else zr(l) <= zr(h)


_mk15('none', 'none')
_mk15('scalar', 'vector')


@case('C17', 'CascadedRTA.reset resets every member')
def c17c(ctx):
    eng, nu, n, OUT, IV, outs = cascade(ctx, 'none', 'none', reset=True)
    for o in outs:
        ctx.at(o)
        obj, fid = o.value
        ctx.require(o, 'flags', z3.And(flag(eng, obj, 'enable'), z3.Not(flag(eng, obj, 'intervening'))))
        if isinstance(n, int):
            for q in range(n):
                ctx.require(o, f'member {q} reset', flag(eng, fid[q], 'was_reset'))
        else:
            k = z3.Int('%m')
            ctx.require(o, 'every member reset', zb(eng.truth(eng.getattr(FamRef(fid, k), 'was_reset'))), extra=[k >= 0, k < n])


# ------------------------------------------------------------------------------------------ C17 reset of a simplex filter

def _mk17(kind, jit):
    @case('C17', f'{kind}.reset then filter equals a fresh filter jit={jit}')
    def c(ctx):
        from contracts.p_simplex import spec_implicit
        eng = ctx.engine()
        nu, nx, nc = ctx.dim('nu', 2), ctx.dim('nx', 2), ctx.dim('nc', 2)
        imp = 'Implicit' in kind
        dt = (Fraction(1, 2) if ctx.bounded else z3.Real('dt')) if imp else z3.Real('dt')
        win = (Fraction(5, 4) if ctx.bounded else z3.Real('window')) if imp else None

        def thunk():
            dims_pos(eng, (nu, 1), (nx, 1), (nc, 0))
            if imp and not ctx.bounded:
                eng.assume(dt > 0)
                eng.assume(win >= 0)
            U = simplex(eng, kind, nu, nx, nc, 'none', 'scalar', jit, window=win)
            # arbitrary history: every internal field the filter may have left behind
            put(eng, U.bc, 'controller_state_initial', opaque_cs('cs_init'))
            put(eng, U.bc, 'controller_state', opaque_cs('cs_dirty'))
            put(eng, U.bc, 'controller_state_saved', opaque_cs('cs_saved_dirty'))
            put(eng, U.obj, 'control_desired', eng.new_np(vec('old_u', nu)))
            put(eng, U.obj, 'control_actual', eng.new_np(vec('old_a', nu)))
            u1, st1 = eng.new_np(vec('u_old', nu)), eng.new_np(vec('st_old', nx))
            eng.call(eng.getattr(U.obj, 'filter_control'), [st1, dt, u1], {})
            eng.call(eng.getattr(U.obj, 'reset'), [], {})
            f0 = (eng.getattr(U.obj, 'enable'), eng.getattr(U.obj, 'intervening'), eng.getattr(U.obj, 'control_desired'), eng.getattr(U.obj, 'control_actual'))
            havoc_constraints(eng, U.F)
            u, st = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx))
            r = eng.call(eng.getattr(U.obj, 'filter_control'), [st, dt, u], {})
            return U, u, st, r, f0

        for o in ctx.run(thunk):
            ctx.at(o)
            U, u, st, r, f0 = o.value
            sp = spec_implicit(ctx, eng, U, dt, win) if imp else spec_explicit(eng, U)
            ini = [(z3.Bool('iv'), z3.BoolVal(False)), (z3.Const('cs0', CS), z3.Const('cs_init', CS))]
            sb = lambda t: z3.substitute(t, *ini)
            if imp:
                # specification recurrence from the initial controller state
                saved, globals_cs = None, None
                sp = spec_implicit_cs(ctx, eng, U, dt, win, z3.Const('cs_init', CS))
            on = sb(sp['on'])
            ra = arr(eng, r)
            ctx.forall(o, 'control equals that of a fresh filter', nu, lambda k: eq(ra.at(k), site(on, sb(zr(sp['back'].at(k))), zr(sp['des'].at(k)))))
            ctx.require(o, 'intervening equals that of a fresh filter', flag(eng, U.obj, 'intervening') == on)
            ctx.require(o, 'enabled and not intervening after reset', z3.And(zb(eng.truth(f0[0])), z3.Not(zb(eng.truth(f0[1])))))
            ctx.require(o, 'records cleared', eng.force(f0[2]) is None and eng.force(f0[3]) is None)


def spec_implicit_cs(ctx, eng, U, dt, win, cs):
    from contracts import p_simplex as ps
    import z3 as _z
    F = U.F
    dtz = zr(dt)
    xt = term(eng, vec('st', U.nx))
    x0 = term(eng, U.PRED(xt, dtz, term(eng, clipped(U, vec('u', U.nu)))))
    step_x = lambda x, c: term(eng, U.PRED(x, dtz, term(eng, clipped(U, U.BCF(x, dtz, c)))))
    if ctx.bounded:
        xs, c = [x0], cs
        for _ in range(int(win / dt)):
            nx_ = step_x(xs[-1], c)
            c = U.BCS(xs[-1], dtz, c)
            xs.append(nx_)
        v = z3.Or(*[viol(U, x, F.par_now, F.en_now) for x in xs])
    else:
        i, c, X = z3.Int('%si'), z3.Const('%sc', CS), z3.Const('%sx', VEC)
        fX, fC = loops.recur(eng, [x0, cs], [step_x(X, c), U.BCS(X, dtz, c)], i, [X, c])
        k = z3.Int('pk')
        v = z3.Exists([k], z3.And(k >= 0, k <= z3.ToInt(win / dt), viol(U, fX(k), F.par_now, F.en_now)))
    return dict(on=v, back=clipped(U, U.BCF(xt, dtz, cs)), des=clipped(U, vec('u', U.nu)), cs=U.BCS(xt, dtz, cs))


_mk17('ExplicitSimplexModule', True)
_mk17('ExplicitSimplexModule', False)
_mk17('ImplicitSimplexModule', True)


# ------------------------------------------------------------------------------------------ C18 controller save / restore / reset

def ctrl_state(eng, kind, name, n):
    if kind == 'none':
        return None
    if kind == 'array':
        return vec(name, n)
    return eng.new_dict([('a', vec(name + 'a', n)), ('b', vec(name + 'b', n))])


def cs_equal(ctx, o, eng, what, v, kind, name, n):
    v = eng.force(v)
    if kind == 'none':
        ctx.require(o, what, v is None)
    elif kind == 'array':
        vec_eq(ctx, o, what, eng, v, lambda k: vec(name, n).at(k), n)
    else:
        ctx.require(o, what + ' keys', eng.length(v) == 2 if not is_z3(eng.length(v)) else eng.length(v) == 2)
        for s in 'ab':
            vec_eq(ctx, o, f'{what}[{s}]', eng, eng.getitem(v, s), lambda k: vec(name + s, n).at(k), n)


def _mk18(kind):
    @case('C18', f'RTABackupController save/restore/reset, {kind} state')
    def c(ctx):
        eng = ctx.engine()
        n = ctx.dim('ncs', 2)
        BC = eng.get_class('run_time_assurance.controller.RTABackupController')
        cls = user_class(eng, 'UserBC', BC, {'_generate_control': lambda e, a, kw: (_ for _ in ()).throw(Unsupported('not used'))})

        def thunk():
            dims_pos(eng, (n, 1))
            ini = ctrl_state(eng, kind, 'ini', n)
            bc = eng.call(cls, [], {'controller_state_initial': ini, 'jit_enable': False})
            out = {}
            out['start'] = eng.getattr(bc, 'controller_state')
            out['ini_id'] = (ini, out['start'], eng.getattr(bc, 'controller_state_initial'))
            cur = ctrl_state(eng, kind, 'cur', n)
            put(eng, bc, 'controller_state', cur)
            eng.call(eng.getattr(bc, 'save'), [], {})
            # in-place damage to the live state must not reach the saved copy
            if kind == 'dict':
                eng.setitem(cur, 'a', vec('junk', n))
            put(eng, bc, 'controller_state', ctrl_state(eng, kind, 'look', n))
            eng.call(eng.getattr(bc, 'restore'), [], {})
            r1 = eng.getattr(bc, 'controller_state')
            out['r1'] = snapshot(eng, r1)
            if kind == 'dict':
                eng.setitem(r1, 'a', vec('junk2', n))
            put(eng, bc, 'controller_state', ctrl_state(eng, kind, 'look2', n))
            eng.call(eng.getattr(bc, 'restore'), [], {})
            out['r2'] = snapshot(eng, eng.getattr(bc, 'controller_state'))
            eng.call(eng.getattr(bc, 'reset'), [], {})
            s1 = eng.getattr(bc, 'controller_state')
            out['reset'] = snapshot(eng, s1)
            if kind == 'dict':
                eng.setitem(s1, 'a', vec('junk3', n))
            eng.call(eng.getattr(bc, 'reset'), [], {})
            out['reset2'] = eng.getattr(bc, 'controller_state')
            return out

        for o in ctx.run(thunk):
            ctx.at(o)
            v = o.value
            cs_equal(ctx, o, eng, 'starts from the initial state', v['start'], kind, 'ini', n)
            cs_equal(ctx, o, eng, 'restore brings back the saved state', v['r1'], kind, 'cur', n)
            cs_equal(ctx, o, eng, 'a second restore brings it back again', v['r2'], kind, 'cur', n)
            cs_equal(ctx, o, eng, 'reset brings back the initial state', v['reset'], kind, 'ini', n)
            cs_equal(ctx, o, eng, 'reset is repeatable', v['reset2'], kind, 'ini', n)
            if kind == 'dict':
                a, b, d = [eng.force(x) for x in v['ini_id']]
                ctx.require(o, 'constructor copies the initial state', a.id != b.id and b.id != d.id and a.id != d.id)


def snapshot(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref):
        c = eng.cell(v)
        return eng.alloc(c.copy())
    return v


for _k in ('none', 'array', 'dict'):
    _mk18(_k)


@case('C18', 'generate_control advances the state once')
def c18g(ctx):
    eng = ctx.engine()
    nu, nx = ctx.dim('nu', 2), ctx.dim('nx', 2)
    D = dyn(eng, nu, nx)

    def thunk():
        dims_pos(eng, (nu, 1), (nx, 1))
        bc = eng.call(D.bccls, [], {'jit_enable': False})
        put(eng, bc, 'controller_state', opaque_cs())
        x = vec('st', nx)
        u = eng.call(eng.getattr(bc, 'generate_control'), [x, z3.Real('dt')], {})
        cs1 = eng.getattr(bc, 'controller_state')
        p = eng.call(eng.getattr(bc, 'generate_control_with_controller_state'), [x, z3.Real('dt'), opaque_cs('cs7')], {})
        return u, cs1, p, eng.getattr(bc, 'controller_state')

    for o in ctx.run(thunk):
        ctx.at(o)
        u, cs1, p, cs2 = o.value
        xt, dt = term(eng, vec('st', nx)), z3.Real('dt')
        c0, c7 = z3.Const('cs0', CS), z3.Const('cs7', CS)
        vec_eq(ctx, o, 'control', eng, u, lambda k: D.BCF(xt, dt, c0).at(k), nu)
        ctx.require(o, 'state advanced', csterm(eng, cs1) == D.BCS(xt, dt, c0))
        vec_eq(ctx, o, 'control with given state', eng, p[0], lambda k: D.BCF(xt, dt, c7).at(k), nu)
        ctx.require(o, 'given state advanced', csterm(eng, p[1]) == D.BCS(xt, dt, c7))
        ctx.require(o, 'own state untouched', csterm(eng, cs2) == D.BCS(xt, dt, c0))


# ------------------------------------------------------------------------------------------ C19 reported values

def _mk19(jit, cjit):
    @case('C19', f'info record jit={jit} cjit={cjit}')
    def c(ctx):
        eng = ctx.engine()
        nu, nx, nc = ctx.dim('nu', 2), ctx.dim('nx', 2), ctx.dim('nc', 2)

        def thunk():
            dims_pos(eng, (nu, 1), (nx, 1), (nc, 0))
            U = simplex(eng, 'ExplicitSimplexModule', nu, nx, nc, 'none', 'none', jit, cjit=cjit)
            put(eng, U.obj, 'enable', True)
            havoc_constraints(eng, U.F)
            u, st, st2 = eng.new_np(vec('u', nu)), eng.new_np(vec('st', nx)), eng.new_np(vec('st2', nx))
            eng.call(eng.getattr(U.obj, 'filter_control'), [st, z3.Real('dt'), u], {})
            i1 = eng.call(eng.getattr(U.obj, 'generate_info'), [], {})
            U.par1 = U.F.par_now
            havoc_constraints(eng, U.F, 'later')
            put(eng, U.obj, 'enable', z3.Bool('en'))
            eng.call(eng.getattr(U.obj, 'update_constraint_values'), [st2], {})
            i2 = eng.call(eng.getattr(U.obj, 'generate_info'), [], {})
            return U, i1, i2

        for o in ctx.run(thunk):
            ctx.at(o)
            U, i1, i2 = o.value
            F = U.F
            for inf, key, other, stn, par in ((i1, 'constraints_at_last_state', 'constraints', 'st', U.par1),
                                              (i2, 'constraints', 'constraints_at_last_state', 'st2', F.par_now)):
                cell = eng.cell(inf)
                ctx.require(o, f'{key} present', zb(lib.dict_has(eng, cell, key)))
                ctx.require(o, f'{other} absent', z3.Not(zb(lib.dict_has(eng, cell, other))))
                d = eng.getitem(inf, key)
                xt = term(eng, vec(stn, nx))
                if isinstance(nc, int):
                    for q in range(nc):
                        ctx.require(o, f'{key} value {q}', eq(scalar(eng, eng.getitem(d, f'con{q}')), F.h(zi(q), par(zi(q)), xt)))
                    ctx.require(o, f'{key} has one value per constraint', eng.length(d) == nc)
                else:
                    j = z3.Int('%c')
                    eng.assume(z3.And(j >= 0, j < nc))
                    ctx.require(o, f'{key} value', eq(scalar(eng, eng.getitem(d, SymStr([KeyPart('con', j)]))), F.h(j, par(j), xt)))
                    ctx.require(o, f'{key} has one value per constraint', zi(eng.length(d)) == nc)


_mk19(True, True)
_mk19(False, True)


# ------------------------------------------------------------------------------------------ C26 state wrappers

STATES = {
    'cwh.docking_2d.Docking2dState': ['x', 'y', 'x_dot', 'y_dot'],
    'cwh.docking_3d.Docking3dState': ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'],
    'cwh.inspection_1v1.Inspection3dState': ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'sun_angle', 'delta_v'],
    'integrators.integrator_1d.Integrator1dDockingState': ['x', 'x_dot'],
}


def _mk26(path, comps):
    @case('C26', path, modes='U')
    def c(ctx):
        eng = ctx.engine(['run_time_assurance.state'])
        cls = eng.get_class(ZOO + path)
        n = len(comps)
        for q, name in enumerate(comps):
            def thunk():
                v = vec('v', n)
                s = eng.call(cls, [v], {})
                before = eng.getattr(s, name)
                sz, ln = eng.getattr(s, 'size'), eng.length(s) if False else eng.call(eng.getattr(s, '__len__'), [], {})
                eng.setattr(s, name, z3.Real('val'))
                return v, before, sz, ln, eng.getattr(s, 'vector'), eng.getattr(s, name)

            for o in ctx.run(thunk, label=' ' + name):
                ctx.at(o)
                v, before, sz, ln, after, rd = o.value
                ctx.require(o, f'{name} reads element {q}', eq(scalar(eng, before), v.at(q)))
                ctx.require(o, f'{name} reads back', eq(scalar(eng, rd), z3.Real('val')))
                ctx.require(o, 'size and len', zi(sz) == n if is_z3(sz) else (sz == n and ln == n))
                vec_eq(ctx, o, f'assigning {name} changes element {q} only', eng, after, lambda k: z3.Real('val') if k == q else v.at(k), n)


for _p, _c in STATES.items():
    _mk26(_p, _c)


# ------------------------------------------------------------------------------------------ C20 building blocks

@case('C20', 'ConstraintModule compute/phi/alpha')
def c20a(ctx):
    eng = ctx.engine()
    nx, nc = ctx.dim('nx', 2), 1
    for cjit in (True, False):
        def thunk():
            dims_pos(eng, (nx, 1))
            F = make_constraints(eng, 1, nx, jit_enable=cjit, slack=False)
            c = F.refs[0]
            havoc_constraints(eng, F)
            p = Opaque(z3.Const('p_arg', PARAMS), ('dict', ))
            x = vec('st', nx)
            return (F, eng.call(eng.getattr(c, 'compute'), [x, p], {}), eng.call(c, [x, p], {}), eng.call(eng.getattr(c, 'phi'), [x, p], {}),
                    eng.call(eng.getattr(c, 'alpha'), [z3.Real('y')], {}), eng.call(eng.getattr(c, 'alpha_negative'), [z3.Real('y')], {}),
                    eng.call(eng.getattr(c, 'grad'), [x, p], {}))

        for o in ctx.run(thunk):
            ctx.at(o)
            F, cv, call, phi, al, aln, gr = o.value
            z = zi(0)
            hx = F.h(z, z3.Const('p_arg', PARAMS), term(eng, vec('st', nx)))
            y = z3.Real('y')
            ctx.require(o, 'enforced value is the function plus the bias', eq(scalar(eng, cv), hx + F.bias(z)))
            ctx.require(o, 'calling evaluates the enforced value', eq(scalar(eng, call), hx + F.bias(z)))
            ctx.require(o, 'reporting value carries no bias', eq(scalar(eng, phi), hx))
            ctx.require(o, 'strengthening function', eq(scalar(eng, al), F.al(z, y)))
            ctx.require(o, 'recovery strengthening: given one, else ten times the normal one', eq(scalar(eng, aln), z3.If(F.hasneg(z), F.aln(z, y), 10 * F.al(z, y))))
            vec_eq(ctx, o, 'gradient', eng, gr, lambda k: F.gh(z, z3.Const('p_arg', PARAMS), term(eng, vec('st', nx))).at(k), nx)


def _mkpoly(m):
    @case('C20', f'PolynomialConstraintStrengthener {m} coefficients', modes='U')
    def c(ctx):
        eng = ctx.engine()
        cls = eng.get_class('run_time_assurance.constraint.PolynomialConstraintStrengthener')
        cs = [z3.Real(f'c{k}') for k in range(m)]

        def thunk():
            p = eng.call(cls, [eng.new_list(cs)] if m else [], {})
            return eng.call(p, [z3.Real('y')], {})

        for o in ctx.run(thunk):
            ctx.at(o)
            y = z3.Real('y')
            e = sum([cs[k] * (y**k if k else 1) for k in range(m)], z3.RealVal(0)) if m else y
            ctx.require(o, 'sum of coefficients times powers', eq(scalar(eng, o.value), z3.simplify(e) if m else e))


for _m in (0, 1, 2, 3, 4, 5):
    _mkpoly(_m)


def _mklim(cls_, safe, pre=None):
    @case('C20', f'{cls_} limit set')
    def c(ctx):
        eng = ctx.engine()
        nx = ctx.dim('nx', 3)
        cls = eng.get_class('run_time_assurance.constraint.' + cls_)
        idxs = range(3) if ctx.bounded else [z3.Int('sidx')]
        for ix in idxs:
            def thunk():
                dims_pos(eng, (nx, 1))
                if is_z3(ix):
                    eng.assume(z3.And(ix >= 0, ix < nx))
                if pre is not None:
                    eng.assume(pre(z3.Real('lim')))
                c = eng.call(cls, [], {'limit_val': z3.Real('lim0'), 'state_index': ix, 'jit_enable': True, 'bias': z3.Real('bias')})
                p = eng.new_dict([('limit_val', z3.Real('lim'))])
                x = vec('st', nx)
                return (eng.call(c, [x, p], {}), eng.call(eng.getattr(c, 'phi'), [x, p], {}), eng.getitem(eng.getattr(c, 'params'), 'limit_val'),
                        eng.call(eng.getattr(c, 'alpha'), [z3.Real('y')], {}))

            for o in ctx.run(thunk):
                ctx.at(o)
                v, phi, par, al = o.value
                s, lim, y = vec('st', nx).at(ix), z3.Real('lim'), z3.Real('y')
                ctx.require(o, 'enforced value adds the bias', eq(scalar(eng, v), scalar(eng, phi) + z3.Real('bias')))
                ctx.require(o, 'non-negative exactly on the limit set', (zr(scalar(eng, phi)) >= 0) == safe(s, lim))
                ctx.require(o, 'limit taken from the constructor', eq(scalar(eng, par), z3.Real('lim0')))
                ctx.require(o, 'default strengthening function', eq(scalar(eng, al), z3.RealVal('1/2000') * y + z3.RealVal('1/1000') * y * y * y))


_abs = lambda a: z3.If(a >= 0, a, -a)
_mklim('ConstraintMagnitudeStateLimit', lambda s, l: _abs(s) <= l, lambda l: l >= 0)
_mklim('ConstraintMaxStateLimit', lambda s, l: s <= l)
_mklim('ConstraintMinStateLimit', lambda s, l: s >= l)


def _mkho(deg):
    @case('C20', f'HOCBFConstraint relative degree {deg} (arbitrary constraint and dynamics)' if deg < 3 else f'HOCBFConstraint relative degree {deg} (quadratic constraint, affine dynamics)',
          modes='UB' if deg < 3 else 'B')
    def c(ctx):
        eng = ctx.engine()
        nx = ctx.dim('nx', 2)
        HO = eng.get_class('run_time_assurance.constraint.HOCBFConstraint')
        poly = deg >= 3
        S = {}

        def thunk():
            dims_pos(eng, (nx, 1))
            p = Opaque(z3.Const('p_arg', PARAMS), ('dict', ))
            x = vec('st', nx)
            if not poly:
                F = make_constraints(eng, 1, nx, jit_enable=True, slack=False)
                con = F.refs[0]
                fx = uf_vec('fdyn', nx, VEC)
                S.update(F=F, f=fx)
                fsys = Native('f', lambda e, a, kw: fx(term(e, a[0])))
                al = eng.alloc(ObjCell(user_class(eng, 'HA', eng.get_class('run_time_assurance.constraint.ConstraintStrengthener'),
                                                  {'__call__': lambda e, a, kw: z3.Function('ho_alpha', R, R)(zr(scalar(e, a[1])))}), {}))
            else:
                CM = eng.get_class('run_time_assurance.constraint.ConstraintModule')
                def comp(e, a, kw):
                    s = lib.to_arr(e, e.force(a[1]))
                    a0, a1 = s.at(0), s.at(1)
                    return qh(a0, a1)
                con = eng.call(user_class(eng, 'Quad', CM, {'_compute': comp}), [], {'bias': z3.Real('b0')})
                def fd(e, a, kw):
                    s = lib.to_arr(e, e.force(a[0]))
                    return const_vec(aff(s.at(0), s.at(1)))
                fsys = Native('f', fd)
                PS = eng.get_class('run_time_assurance.constraint.PolynomialConstraintStrengthener')
                al = eng.call(PS, [eng.new_list([0, z3.Real('ca')])], {})
            ho = eng.call(HO, [con, deg, fsys, al], {'bias': z3.Real('hb')})
            return eng.call(ho, [x, p], {}), eng.call(eng.getattr(ho, 'phi'), [x, p], {}), eng.getattr(ho, 'params'), eng.getattr(con, 'params')

        def qh(a0, a1):
            c_ = [z3.Real(f'q{k}') for k in range(6)]
            return c_[0] + c_[1] * zr(a0) + c_[2] * zr(a1) + c_[3] * zr(a0) * zr(a0) + c_[4] * zr(a0) * zr(a1) + c_[5] * zr(a1) * zr(a1)

        def aff(a0, a1):
            m = [z3.Real(f'm{k}') for k in range(6)]
            return [m[0] + m[1] * zr(a0) + m[2] * zr(a1), m[3] + m[4] * zr(a0) + m[5] * zr(a1)]

        for o in ctx.run(thunk):
            ctx.at(o)
            v, phi, pp, cp = o.value
            if not poly:
                F, z = S['F'], zi(0)
                xt = term(eng, vec('st', nx))
                pt = z3.Const('p_arg', PARAMS)
                h0 = F.h(z, pt, xt) + F.bias(z)
                hb = z3.Real('hb')
                ctx.require(o, 'reporting value is that of the original constraint', eq(scalar(eng, phi), F.h(z, pt, xt)))
                ctx.require(o, 'parameters are those of the original constraint', pterm(eng, pp) == pterm(eng, cp))
                if deg == 1:
                    ctx.require(o, 'degree one is the constraint itself', eq(scalar(eng, v), h0 + hb))
                else:
                    gx = F.gh(z, pt, xt)
                    lie = scalar(eng, lib.matmul(eng, gx, S['f'](xt)))
                    ctx.require(o, 'Lie derivative plus strengthening', eq(scalar(eng, v), zr(lie) + z3.Function('ho_alpha', R, R)(h0) + hb))
            else:
                x0, x1 = vec('st', nx).at(0), vec('st', nx).at(1)
                import sympy as sp
                s0, s1, ca, b0 = sp.symbols('s0 s1 ca b0')
                q = sp.symbols('q0:6')
                m = sp.symbols('m0:6')
                hs = q[0] + q[1] * s0 + q[2] * s1 + q[3] * s0**2 + q[4] * s0 * s1 + q[5] * s1**2 + b0
                f = [m[0] + m[1] * s0 + m[2] * s1, m[3] + m[4] * s0 + m[5] * s1]
                psi = hs
                for _ in range(deg - 1):
                    psi = sp.expand(sp.diff(psi, s0) * f[0] + sp.diff(psi, s1) * f[1] + ca * psi)
                env = {s0: x0, s1: x1, ca: z3.Real('ca'), b0: z3.Real('b0')}
                env.update({a: z3.Real(f'q{k}') for k, a in enumerate(q)})
                env.update({a: z3.Real(f'm{k}') for k, a in enumerate(m)})
                diff = sp2z3(psi, env) + z3.Real('hb') - zr(scalar(eng, v))
                ctx.require(o, 'repeated Lie derivative plus strengthening', z3.simplify(diff, som=True) == 0)


def sp2z3(e, env):
    import sympy as sp
    if e.is_Number:
        return z3.RealVal(str(e))
    if e.is_Symbol:
        return env[e]
    if e.is_Add:
        r = sp2z3(e.args[0], env)
        for a in e.args[1:]:
            r = r + sp2z3(a, env)
        return r
    if e.is_Mul:
        r = sp2z3(e.args[0], env)
        for a in e.args[1:]:
            r = r * sp2z3(a, env)
        return r
    if e.is_Pow:
        r = z3.RealVal(1)
        for _ in range(int(e.exp)):
            r = r * sp2z3(e.base, env)
        return r
    raise ValueError(e)


for _d in (1, 2, 3):
    _mkho(_d)
