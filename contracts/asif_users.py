"""Abstract users of the optimizing filters; quadprog and the ODE step are assumed contracts."""
from contracts.users import *       # noqa
from contracts.harness import _args
from contracts.framework import *   # noqa
from pyver.values import ExcVal, Ext

NOSOL = "constraints are inconsistent, no solution"


class QP:
    pass


def model_qp(eng, nact=0):
    """quadprog.solve_qp: records its arguments; outcome is an arbitrary solution, the inconsistency error or some other ValueError.
    nact: number of active rows reported (their indices are arbitrary)"""
    Q = QP()
    Q.infeasible, Q.other = z3.Bool('qp_inconsistent'), z3.Bool('qp_other_error')

    def solve(e, a, kw):
        lib.assumed(e, 'quadprog.solve_qp: returns the unique minimiser of 1/2 x.G.x - a.x over {C.T x >= b} and its active rows, or raises ValueError')
        vals = _args(e, a, kw, ('G', 'a', 'C', 'b', 'meq', 'factorized')[:max(len(a), 0) + len(kw)])
        G, av, C, b = [lib.to_arr(e, e.force(x)) for x in vals[:4]]
        meq = vals[4] if len(vals) > 4 else 0
        e.st.events.append(('qp', G, av, C, b, meq))
        c = e.choose([z3.And(z3.Not(Q.infeasible), z3.Not(Q.other)), z3.And(Q.infeasible, z3.Not(Q.other)), Q.other])
        if c == 1:
            raise PyRaise(ExcVal(Ext('builtins.ValueError'), (NOSOL, )))
        if c == 2:
            raise PyRaise(ExcVal(Ext('builtins.ValueError'), ('matrix G is not positive definite', )))
        n = simp(G.shape[0])
        x = vec('qpx', n)
        m = C.shape[1]
        acts = [z3.Int(f'qpact{j}') for j in range(nact)]
        for t in acts:
            e.assume(z3.And(t >= 1, t <= zi(m)))
        e.assume(z3.Distinct(*acts) if len(acts) > 1 else z3.BoolVal(True))
        ia = Arr((nact, ), (lambda k: acts[k]) if nact else (lambda k: 0), kind='np', dtype='int')
        Q.x = x
        return (e.new_np(x), z3.Real('qpf'), e.new_np(vec('qpxu', n)), e.new_np(vec('qpit', 2)), e.new_np(vec('qplam', m)), e.new_np(ia))

    lib.LIB['quadprog.solve_qp'] = solve
    return Q


def model_step(eng, nx, nu):
    """dynamics base classes of safe_autonomy_simulation: step(dt, state, control) is an uninterpreted function"""
    D = User()
    D.STEP = uf_vec('ode_step', nx, VEC, R, VEC)

    def step(e, a, kw):
        s, dt, x, u = _args(e, a, kw, ('self', 'step_size', 'state', 'control'))
        lib.assumed(e, 'safe_autonomy_simulation ODEDynamics.step: a pure function of (step size, state, control) for the given derivative')
        return (D.STEP(term(e, x), zr(scalar(e, dt)), term(e, u)), e.new_np(vec('xdot', nx)))
    D.step = step
    return D


def direct_family(eng, nd, nu, nx):
    Dq = User()
    Dq.w = uf_vec('dir_w', nu, I, PARAMS, VEC)
    Dq.c = z3.Function('dir_c', I, PARAMS, VEC, R)
    Dq.par, Dq.en = z3.Function('dpar', I, PARAMS), z3.Function('den', I, B)
    Dq.n = nd

    def tag(e, s):
        return zi(s.idx) if isinstance(s, FamRef) else zi(e.getattr(s, '$idx'))

    def iw(e, a, kw):
        s, x, p = _args(e, a, kw, ('self', 'state', 'params'))
        return Dq.w(tag(e, s), pterm(e, p), term(e, x))

    def ic(e, a, kw):
        s, x, p = _args(e, a, kw, ('self', 'state', 'params'))
        return Arr((), lambda: Dq.c(tag(e, s), pterm(e, p), term(e, x)))

    DI = eng.get_class('run_time_assurance.constraint.DirectInequalityConstraint')
    cls = user_class(eng, 'UserDirect', DI, {'ineq_weight': iw, 'ineq_constant': ic})
    init, owner = eng.lookup_class_attr(cls, '__init__')
    if isinstance(nd, int):
        items, Dq.refs = [], []
        for q in range(nd):
            r = eng.alloc(ObjCell(cls, {'$idx': q}))
            eng.call(eng.bind_attr(r, init, owner), [], dict(params=Opaque(Dq.par(zi(q)), ('dict', )), enabled=Dq.en(zi(q))))
            eng.st.ghost[('volatile', r.id)] = ('params', 'enabled')
            items.append((f"dir{q}", r))
            Dq.refs.append(r)
        Dq.dict = eng.new_dict(items)
        return Dq
    i = z3.Int('di')
    fid = eng.new_fam(FamCell('direct', 'obj', nd, i, cls))
    Dq.fid = fid
    eng.call(eng.bind_attr(FamRef(fid, i), init, owner), [], dict(params=Opaque(Dq.par(i), ('dict', )), enabled=Dq.en(i)))
    fc = eng.st.fams[fid].copy()
    for idx, a, v in fc.over:
        fc.fields[a] = v
    fc.over = []
    fc.volatile = {'params', 'enabled'}
    eng.st.fams[fid] = fc
    Dq.dict = eng.alloc(DictCell([DictSeg(SymStr([KeyPart('dir', i)]), FamRef(fid, i), nd, i, 'dir')]))
    return Dq


def havoc_direct(eng, Dq):
    Dq.par, Dq.en = z3.Function('dpar_now', I, PARAMS), z3.Function('den_now', I, B)
    if isinstance(Dq.n, int):
        for q in range(Dq.n):
            put(eng, Dq.refs[q], 'params', Opaque(Dq.par(zi(q)), ('dict', )))
            put(eng, Dq.refs[q], 'enabled', Dq.en(zi(q)))
    else:
        fc = eng.st.fams[Dq.fid].copy()
        fc.fields['params'] = Opaque(Dq.par(fc.ivar), ('dict', ))
        fc.fields['enabled'] = Dq.en(fc.ivar)
        eng.st.fams[Dq.fid] = fc


def explicit_asif(eng, nu, nx, nc, nd, lo='none', hi='none', jit=True, slack=True, nact=0, exc=False, dynamic=True, cjit=True, kind='ExplicitASIFModule'):
    U = User()
    U.nu, U.nx, U.nc, U.nd, U.lo, U.hi = nu, nx, nc, nd, lo, hi
    U.Q = model_qp(eng, nact)
    U.F = make_constraints(eng, nc, nx, jit_enable=cjit, slack=slack)
    U.D = direct_family(eng, nd, nu, nx)
    U.f, U.g = uf_vec('dyn_f', nx, VEC), uf_mat('dyn_g', nx, nu, VEC)
    m = {'_setup_constraints': lambda e, a, kw: U.F.dict, '_setup_direct_constraints': lambda e, a, kw: U.D.dict,
         'state_transition_system': lambda e, a, kw: U.f(term(e, _args(e, a, kw, ('self', 'state'))[1])),
         'state_transition_input': lambda e, a, kw: U.g(term(e, _args(e, a, kw, ('self', 'state'))[1]))}
    U.cls = user_class(eng, 'UserASIF', eng.get_class(RA + kind), m)
    U.obj = eng.call(U.cls, [], {'control_bounds_low': bound_value(eng, lo, 'lo', nu), 'control_bounds_high': bound_value(eng, hi, 'hi', nu),
                                 'jit_enable': jit, 'epsilon': z3.Real('eps'), 'control_dim': nu, 'solver_exception': exc})
    put(eng, U.obj, 'intervening', z3.Bool('iv'))
    if dynamic:
        havoc_constraints(eng, U.F)
        havoc_direct(eng, U.D)
        U.par, U.en = U.F.par_now, U.F.en_now
    else:
        U.par, U.en = U.F.par, U.F.en
    return U


def qp_events(o):
    return [e for e in o.state.events if e[0] == 'qp']


def dyn_grad_rules(eng, nu, nx):
    """derivatives of the user's dynamics and backup control law: uninterpreted, named per function"""
    df = z3.Function('D_dyn_f', VEC, I, I, R)
    dg = z3.Function('D_dyn_g', VEC, I, I, I, R)
    db = z3.Function('D_bctrl', VEC, R, CS, I, I, R)

    def chain(D, x, k, part):
        if D.xc is not None:
            if not x.eq(D.xc):
                raise Unsupported("derivative at a composed argument")
            return part(zi(k))
        r = 0
        for j in range(nx):
            r = sadd(r, smul(part(z3.IntVal(j)), D.d(z3.simplify(z3.Select(x, j)), k)))
        return r

    eng.grad_rules['dyn_f'] = lambda D, t, k, idx: chain(D, t.arg(0), k, lambda j: df(t.arg(0), idx[0], j))
    eng.grad_rules['dyn_g'] = lambda D, t, k, idx: chain(D, t.arg(0), k, lambda j: dg(t.arg(0), idx[0], idx[1], j))
    eng.grad_rules['bctrl'] = lambda D, t, k, idx: chain(D, t.arg(0), k, lambda j: db(t.arg(0), t.arg(1), t.arg(2), idx[0], j))
    if isinstance(nx, int) and isinstance(nu, int):
        for i in range(nx):
            eng.grad_rules[f'dyn_f_{i}'] = lambda D, t, k, idx, i=i: chain(D, t.arg(0), k, lambda j: df(t.arg(0), zi(i), j))
            for m in range(nu):
                eng.grad_rules[f'dyn_g_{i}_{m}'] = lambda D, t, k, idx, i=i, m=m: chain(D, t.arg(0), k, lambda j: dg(t.arg(0), zi(i), zi(m), j))
        for m in range(nu):
            eng.grad_rules[f'bctrl_{m}'] = lambda D, t, k, idx, m=m: chain(D, t.arg(0), k, lambda j: db(t.arg(0), t.arg(1), t.arg(2), zi(m), j))
    return df, dg, db


def implicit_asif(eng, nu, nx, nc, nd, lo='none', hi='none', jit=True, slack=True, nact=0, exc=False, dynamic=True, window=None, subsample=None,
                  ext_methods=None, jcd=None):
    U = dyn(eng, nu, nx)
    U.nu, U.nx, U.nc, U.nd, U.lo, U.hi = nu, nx, nc, nd, lo, hi
    U.Q = model_qp(eng, nact)
    S = model_step(eng, nx, nu)
    U.STEP = S.STEP
    U.df, U.dg, U.db = dyn_grad_rules(eng, nu, nx)
    U.F = make_constraints(eng, nc, nx, slack=slack, subsample=subsample)
    U.D = direct_family(eng, nd, nu, nx)
    U.f, U.g = uf_vec('dyn_f', nx, VEC), uf_mat('dyn_g', nx, nu, VEC)
    lib.EXT_BASE['safe_autonomy_simulation.dynamics.ControlAffineODEDynamics'] = {'step': S.step, '__init__': lambda e, a, kw: None}
    lib.EXT_BASE['safe_autonomy_simulation.dynamics.ODEDynamics'] = {'step': S.step, '__init__': lambda e, a, kw: None}
    m = {'_setup_constraints': lambda e, a, kw: U.F.dict, '_setup_direct_constraints': lambda e, a, kw: U.D.dict,
         'state_transition_system': lambda e, a, kw: U.f(term(e, _args(e, a, kw, ('self', 'state'))[1])),
         'state_transition_input': lambda e, a, kw: U.g(term(e, _args(e, a, kw, ('self', 'state'))[1]))}
    U.cls = user_class(eng, 'UserIASIF', eng.get_class(RA + 'ImplicitASIFModule'), m)
    U.bc = eng.call(U.bccls, [], {'jit_enable': False})
    put(eng, U.bc, 'controller_state', opaque_cs())
    U.window = z3.Real('window') if window is None else window
    kw = {'control_bounds_low': bound_value(eng, lo, 'lo', nu), 'control_bounds_high': bound_value(eng, hi, 'hi', nu),
          'jit_enable': jit, 'epsilon': z3.Real('eps'), 'control_dim': nu, 'solver_exception': exc, 'backup_window': U.window, 'backup_controller': U.bc}
    U.obj = eng.call(U.cls, [], kw)
    put(eng, U.obj, 'intervening', z3.Bool('iv'))
    if dynamic:
        havoc_constraints(eng, U.F)
        havoc_direct(eng, U.D)
        U.par, U.en = U.F.par_now, U.F.en_now
    else:
        U.par, U.en = U.F.par, U.F.en
    return U
