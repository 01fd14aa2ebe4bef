"""Symbolic environments in which the real code of /repo is executed by the verifier.

The abstract user of the library (the parts a subclass supplies: dynamics, constraint functions, backup control)
is represented by uninterpreted functions, so every obligation holds for all users.  Everything else is the real code."""
from __future__ import annotations
import os
import sys
import z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyver.values import *          # noqa
from pyver.core import Engine, ClassVal
from pyver import lib, loops, extdyn        # noqa

PARAMS = z3.DeclareSort('Params')
CS = z3.DeclareSort('CtrlState')
ROOT = os.environ.get('VERIF_REPO', '/repo')

MODS = ['run_time_assurance.utils.utils', 'run_time_assurance.controller', 'run_time_assurance.constraint', 'run_time_assurance.rta.base',
        'run_time_assurance.rta.simplex', 'run_time_assurance.rta.asif']


def preload(eng, mods=MODS):
    for m in mods:
        mv = eng.module(m)
        for name in list(mv.pending):
            if name == '*':
                continue
            try:
                eng.mod_get(mv, name)
            except Unsupported:
                pass


def new_engine(mods=MODS):
    eng = Engine(ROOT)
    eng.frame = None
    eng.grad_rules = {}
    preload(eng, mods)
    return eng


def user_class(eng, name, base, methods, mod=None):
    c = ClassVal(name, mod or base.module, [base])
    for k, f in methods.items():
        c.attrs[k] = Native(f"{name}.{k}", f)
    return c


def vec(name, n, kind='jnp'):
    """symbolic vector of (possibly symbolic) length n"""
    if isinstance(n, int):
        vs = [z3.Real(f"{name}_{k}") for k in range(n)]
        return const_vec(vs, kind)
    return Arr((n, ), None, z3.Const(name, VEC), kind)


def const_vec(vs, kind='jnp'):
    n = len(vs)

    def at(k):
        k = simp(k)
        if isinstance(k, int):
            return vs[k]
        r = vs[-1]
        for j in range(n - 2, -1, -1):
            r = site(zi(k) == j, vs[j], r)
        return r

    return Arr((n, ), at, None, kind)


def uf_vec(name, n, *argsorts):
    """uninterpreted vector-valued function; returns f(*terms) -> Arr"""
    if isinstance(n, int):
        fs = [z3.Function(f"{name}_{k}", *argsorts, R) for k in range(n)]
        return lambda *t: const_vec([f(*t) for f in fs])
    F = z3.Function(name, *argsorts, VEC)
    return lambda *t: Arr((n, ), None, F(*t))


def uf_mat(name, n, m, *argsorts):
    if isinstance(n, int) and isinstance(m, int):
        fs = [[z3.Function(f"{name}_{i}_{k}", *argsorts, R) for k in range(m)] for i in range(n)]

        def mk(*t):
            rows = [[f(*t) for f in r] for r in fs]

            def at(i, k):
                i, k = simp(i), simp(k)
                if isinstance(i, int) and isinstance(k, int):
                    return rows[i][k]
                r = None
                for a in range(n):
                    for b in range(m):
                        r = rows[a][b] if r is None else site(z3.And(zi(i) == a, zi(k) == b), rows[a][b], r)
                return r

            return Arr((n, m), at)
        return mk
    F = z3.Function(name, *argsorts, MAT)
    return lambda *t: Arr((n, m), None, F(*t))


def term(eng, v):
    """array-sorted term of a vector argument handed to user code"""
    a = lib.to_arr(eng, eng.force(v))
    if a.term is not None:
        return a.term
    n = simp(a.shape[0])
    if a.ndim == 1 and isinstance(n, int):
        t = z3.K(I, z3.RealVal(0))
        for k in range(n):
            t = z3.Store(t, k, zr(a.at(k)))
        return z3.simplify(t)
    return a.as_term()


def pterm(eng, p):
    p = eng.force(p)
    if isinstance(p, Opaque):
        return p.term
    raise Unsupported(f"parameters replaced by {p!r}")


class Fam:
    """the constraint family of an abstract user"""


def scalar(eng, v):
    v = eng.force(v)
    if isinstance(v, (Ref, Arr)):
        a = lib.to_arr(eng, v)
        if a.ndim == 0:
            return a.at()
    return v


def make_constraints(eng, n_c, n_x, jit_enable=True, slack=True, alpha='uf', alpha_neg=True, subsample=None, key='con', phi=False):
    """an OrderedDict of constraints built by running the real constructor.  n_c symbolic: family; int: separate objects."""
    F = Fam()
    CM = eng.get_class('run_time_assurance.constraint.ConstraintModule')
    ST = eng.get_class('run_time_assurance.constraint.ConstraintStrengthener')
    i = z3.Int('ci')
    F.h = z3.Function('h', I, PARAMS, VEC, R)
    F.par = z3.Function('par', I, PARAMS)
    F.en = z3.Function('enabled', I, B)
    F.bias = z3.Function('bias', I, R)
    F.bneg = z3.Function('bias_negative', I, R)
    F.hs = z3.Function('has_slack', I, B)
    F.sp = z3.Function('slack_scale', I, R)
    F.al = z3.Function('alpha', I, R, R)
    F.aln = z3.Function('alpha_neg', I, R, R)
    F.hasneg = z3.Function('has_alpha_neg', I, B)
    F.gh = uf_vec('grad_h', n_x, I, PARAMS, VEC)
    F.n = n_c
    F.key = key
    if isinstance(slack, tuple):
        # concrete slack pattern (bounded mode)
        F.hs = lambda q: z3.BoolVal(slack[zi(q).as_long()])
    elif not slack:
        F.hs = lambda q: z3.BoolVal(False)

    def grad_h(D, t, k, idx):
        ci, p, x = t.children()
        if D.xc is not None:
            if not x.eq(D.xc):
                raise Unsupported("derivative of constraint at a composed argument")
            return F.gh(ci, p, x).at(k)
        # concrete dimension: x is a store chain over the differentiation variables
        r = 0
        g = F.gh(ci, p, x)
        for j in range(n_x):
            xj = z3.simplify(z3.Select(x, j))
            r = sadd(r, smul(g.at(j), D.d(xj, k)))
        return r

    eng.grad_rules['h'] = grad_h

    def tag(e, self_):
        if isinstance(self_, FamRef):
            return zi(self_.idx)
        return zi(e.getattr(self_, '$idx'))

    def _compute(e, a, kw):
        self_, state, params = _args(e, a, kw, ('self', 'state', 'params'))
        return F.h(tag(e, self_), pterm(e, params), term(e, state))

    def al_call(e, a, kw):
        return F.al(tag(e, a[0]), zr(scalar(e, a[1])))

    def aln_call(e, a, kw):
        return F.aln(tag(e, a[0]), zr(scalar(e, a[1])))

    def d_al(D, t, k, idx):
        raise Unsupported('derivative of alpha')

    def _phi(e, a, kw):
        self_, state, params = _args(e, a, kw, ('self', 'state', 'params'))
        return F.phi(tag(e, self_), pterm(e, params), term(e, state))

    F.phi = z3.Function('phi', I, PARAMS, VEC, R)
    F.cls = user_class(eng, 'UserConstraint', CM, dict({'_compute': _compute}, **({'_phi': _phi} if phi else {})))
    F.alcls = user_class(eng, 'UserAlpha', ST, {'__call__': al_call})
    F.alncls = user_class(eng, 'UserAlphaNeg', ST, {'__call__': aln_call})

    def kwargs_for(ix, alpha_obj, aln_obj):
        kw = dict(alpha=alpha_obj, bias=F.bias(ix), bias_negative=F.bneg(ix), params=Opaque(F.par(ix), ('dict', )), enabled=F.en(ix))
        if isinstance(slack, tuple):
            kw['slack_priority_scale'] = F.sp(ix) if slack[ix.as_long()] else None
        elif slack:
            kw['slack_priority_scale'] = UVal([(F.hs(ix), F.sp(ix)), (z3.Not(F.hs(ix)), None)])
        if alpha_neg:
            kw['alpha_negative'] = UVal([(F.hasneg(ix), aln_obj), (z3.Not(F.hasneg(ix)), None)])
        if subsample:
            kw.update(subsample(ix) if callable(subsample) else subsample)
        return kw

    if isinstance(n_c, int):
        items = []
        F.refs = []
        for q in range(n_c):
            ao = eng.alloc(ObjCell(F.alcls, {'$idx': q}))
            an = eng.alloc(ObjCell(F.alncls, {'$idx': q}))
            r = eng.alloc(ObjCell(F.cls, {'$idx': q}))
            if slack:
                eng.assume(z3.Implies(F.hs(q), F.sp(q) > 0))
            init, owner = eng.lookup_class_attr(F.cls, '__init__')
            eng.call(eng.bind_attr(r, init, owner), [], dict(kwargs_for(zi(q), ao, an), jit_enable=jit_enable))
            eng.st.ghost[('volatile', r.id)] = ('params', 'enabled')
            items.append((f"{key}{q}", r))
            F.refs.append(r)
        F.dict = eng.new_dict(items)
        return F
    afid = eng.new_fam(FamCell('alpha', 'obj', n_c, i, F.alcls))
    anfid = eng.new_fam(FamCell('alphaneg', 'obj', n_c, i, F.alncls))
    fid = eng.new_fam(FamCell('constraint', 'obj', n_c, i, F.cls))
    F.fid = fid
    self_ = FamRef(fid, i)
    init, owner = eng.lookup_class_attr(F.cls, '__init__')
    eng.call(eng.bind_attr(self_, init, owner), [], dict(kwargs_for(i, FamRef(afid, i), FamRef(anfid, i)), jit_enable=jit_enable))
    fc = eng.st.fams[fid].copy()
    for idx, a, v in fc.over:
        assert same(idx, i)
        fc.fields[a] = v
    fc.over = []
    for a, v in list(fc.fields.items()):        # objects each constraint creates for itself: one per constraint
        if isinstance(v, Ref) and eng.cell(v).kind == 'obj':
            oc = eng.cell(v)
            fc.fields[a] = FamRef(eng.new_fam(FamCell('constraint.' + a, 'obj', n_c, i, oc.cls, dict(oc.fields))), i)
    fc.volatile = {'params', 'enabled'}
    eng.st.fams[fid] = fc
    if slack:
        j = z3.Int('sj')
        eng.assume(z3.ForAll([j], z3.Implies(F.hs(j), F.sp(j) > 0)))
    F.dict = eng.alloc(DictCell([DictSeg(SymStr([KeyPart(key, i)]), FamRef(fid, i), n_c, i, key)]))
    return F


def _args(e, a, kw, names):
    out = list(a)
    for nm in names[len(a):]:
        out.append(kw[nm])
    return out


BOUNDS = ['none', 'scalar', 'vector', 'list']


def bound_value(eng, kind, name, n_u):
    if kind == 'none':
        return None
    if kind == 'scalar':
        return z3.Real(name)
    v = vec(name, n_u)
    if kind == 'vector':
        return eng.new_np(v)
    if kind == 'list':
        if not isinstance(n_u, int):
            j = fresh('bj', I)
            return eng.alloc(ListCell([ListSeg(v.at(j), n_u, j)]))
        return eng.new_list([v.at(k) for k in range(n_u)])
    raise ValueError(kind)


def bound_at(kind, name, k, n_u):
    """spec-side: k-th bound or None"""
    if kind == 'none':
        return None
    if kind == 'scalar':
        return z3.Real(name)
    return vec(name, n_u).at(k)


def put(eng, obj, name, val):
    """havoc an attribute the class really has (a renamed attribute makes the case undecided, never refuted)"""
    v = eng.force(obj)
    c = eng.st.heap[v.id]
    if name not in c.fields:
        a, _ = eng.lookup_class_attr(c.cls, name)
        if a is None or a is UNDEF:
            raise Unsupported(f"{c.cls.name} has no attribute {name}")
    eng.setattr(obj, name, val)
