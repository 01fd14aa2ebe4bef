"""Abstract users of the library: uninterpreted dynamics, constraints and controllers around the real classes."""
from __future__ import annotations
import z3
from contracts.harness import *     # noqa
from contracts.harness import _args
from pyver import lib

RB = 'run_time_assurance.rta.base.'
RS = 'run_time_assurance.rta.simplex.'
RA = 'run_time_assurance.rta.asif.'


def opaque_cs(name='cs0'):
    return Opaque(z3.Const(name, CS), ('jax.numpy.ndarray', ))


def csterm(e, cs):
    cs = e.force(cs)
    if isinstance(cs, Opaque):
        return cs.term
    raise Unsupported(f"controller state {cs!r}")


class User:
    pass


def raw_module(eng, nu, calls='count'):
    """RTAModule whose compute_filtered_control is an arbitrary function"""
    U = User()
    RM = eng.get_class(RB + 'RTAModule')
    U.raw = vec('raw', nu)
    U.iv_after = z3.Bool('iv_after')

    def cfc(e, a, kw):
        self_, st, dt, u = _args(e, a, kw, ('self', 'input_state', 'step_size', 'control_desired'))
        e.st.events.append(('cfc', dt, st, u))
        e.setattr(self_, 'intervening', U.iv_after)
        return e.new_np(U.raw)

    U.cls = user_class(eng, 'UserRTA', RM, {'compute_filtered_control': cfc})
    return U


def dyn(eng, nu, nx):
    """uninterpreted prediction and backup controller"""
    D = User()
    D.PRED = uf_vec('pred', nx, VEC, R, VEC)
    D.BCF = uf_vec('bctrl', nu, VEC, R, CS)
    D.BCS = z3.Function('bcs', VEC, R, CS, CS)

    def gen(e, a, kw):
        s, x, dt, cs = _args(e, a, kw, ('self', 'state', 'step_size', 'controller_state'))
        ct = csterm(e, cs)
        x, dt = term(e, x), zr(scalar(e, dt))
        return (D.BCF(x, dt, ct), Opaque(D.BCS(x, dt, ct), ('jax.numpy.ndarray', )))

    def pred(e, a, kw):
        s, x, dt, u = _args(e, a, kw, ('self', 'state', 'step_size', 'control'))
        return D.PRED(term(e, x), zr(scalar(e, dt)), term(e, u))

    D.pred, D.gen = pred, gen
    D.bccls = user_class(eng, 'UserBC', eng.get_class('run_time_assurance.controller.RTABackupController'), {'_generate_control': gen})
    return D


def simplex(eng, kind, nu, nx, nc, lo='none', hi='none', jit=True, latch=None, window=None, cjit=True, slack=False, extra=None,
            constraints_to_use=None, havoc=True):
    """a SimplexModule object in an arbitrary reachable-or-not internal state; call inside a thunk"""
    U = dyn(eng, nu, nx)
    U.F = make_constraints(eng, nc, nx, jit_enable=cjit, slack=slack)
    base = eng.get_class(RS + kind)
    U.cls = user_class(eng, 'UserSimplex', base, dict({'_pred_state': U.pred, '_setup_constraints': lambda e, a, kw: U.F.dict}, **(extra or {})))
    U.bc = eng.call(U.bccls, [], {'jit_enable': False})
    put(eng, U.bc, 'controller_state', opaque_cs())
    kw = {'control_bounds_low': bound_value(eng, lo, 'lo', nu), 'control_bounds_high': bound_value(eng, hi, 'hi', nu), 'backup_controller': U.bc,
          'latch_time': z3.Real('latch') if latch is None else latch, 'jit_enable': jit}
    if 'Implicit' in kind:
        kw['backup_window'] = z3.Real('window') if window is None else window
    if constraints_to_use is not None:
        kw['constraints_to_use'] = constraints_to_use
    U.obj = eng.call(U.cls, [], kw)
    U.nu, U.nx, U.nc, U.lo, U.hi = nu, nx, nc, lo, hi
    if havoc:
        put(eng, U.obj, 'enable', z3.Bool('en'))
        put(eng, U.obj, 'intervening', z3.Bool('iv'))
        put(eng, U.obj, 'latched_elapsed', z3.Real('le'))
        eng.assume(z3.Real('le') >= 0)      # invariant: zero after construction and reset, kept by every call (C06)
    return U


def havoc_constraints(eng, F, tagp="now"):
    """current parameters and enable flags, changed by the user at any time after construction"""
    F.par_now = z3.Function('par_' + tagp, I, PARAMS)
    F.en_now = z3.Function('en_' + tagp, I, B)
    if isinstance(F.n, int):
        for q in range(F.n):
            put(eng, F.refs[q], 'params', Opaque(F.par_now(zi(q)), ('dict', )))
            put(eng, F.refs[q], 'enabled', F.en_now(zi(q)))
    else:
        fc = eng.st.fams[F.fid].copy()
        fc.fields['params'] = Opaque(F.par_now(fc.ivar), ('dict', ))
        fc.fields['enabled'] = F.en_now(fc.ivar)
        eng.st.fams[F.fid] = fc


def dims_pos(eng, *ds):
    for d, m in ds:
        if not isinstance(d, int):
            eng.assume(d >= m)


def b_at(U, which, k):
    return bound_at(U.lo if which == 'lo' else U.hi, which, k, U.nu)


def viol(U, xt, par, en):
    """spec: some enabled constraint is negative at state term xt"""
    F = U.F
    if isinstance(F.n, int):
        return z3.Or(*[z3.And(en(zi(q)), F.h(zi(q), par(zi(q)), xt) + F.bias(zi(q)) < 0) for q in range(F.n)]) if F.n else z3.BoolVal(False)
    j = z3.Int('vj')
    return z3.Exists([j], z3.And(j >= 0, j < zi(F.n), en(j), F.h(j, par(j), xt) + F.bias(j) < 0))
