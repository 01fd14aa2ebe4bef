"""Assumed contracts of the third-party libraries (numpy, jax, scipy, quadprog, stdlib) and the Python
data model, as seen by the verifier.  Every external function used on a run is recorded in
eng.assumed so that the evidence can list it."""
from __future__ import annotations
import ast
import builtins as _bi
from fractions import Fraction
import z3
from .values import *

LIB = {}

STR = z3.DeclareSort('Str')
OBJ = z3.DeclareSort('PyVal')

SUM = z3.Function('SUM', I, VEC, R)          # finite sum of a vector prefix
MINV = z3.Function('MINV', I, VEC, R)
MAXV = z3.Function('MAXV', I, VEC, R)
SQRT = z3.Function('sqrt', R, R)
SIN = z3.Function('sin', R, R)
COS = z3.Function('cos', R, R)
TAN = z3.Function('tan', R, R)
ARCCOS = z3.Function('arccos', R, R)
POW = z3.Function('pow', R, I, R)
PI = z3.Real('pi')


def reg(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def assumed(eng, name):
    eng.assumed[name] = eng.assumed.get(name, 0) + 1


def canon_path(p):
    for a, b in (('jax.numpy.', 'numpy.'), ('jnp.', 'numpy.')):
        if p.startswith(a):
            return b + p[len(a):]
    return p


# ------------------------------------------------------------------------------------ helpers


def perr(name, *args):
    return PyRaise(ExcVal(Ext('builtins.' + name), args))


def exc_issub(c, t):
    from .core import ClassVal
    if isinstance(t, Ext):
        tn = t.path.split('.')[-1]
        tcls = getattr(_bi, tn, None)
        if isinstance(c, Ext):
            cc = getattr(_bi, c.path.split('.')[-1], None)
            if cc is None or tcls is None:
                return c == t or tn in ('Exception', 'BaseException')
            return issubclass(cc, tcls)
        if isinstance(c, ClassVal):
            for b in c.mro():
                if isinstance(b, Ext):
                    bc = getattr(_bi, b.path.split('.')[-1], None)
                    if bc is not None and tcls is not None and issubclass(bc, tcls):
                        return True
            return False
    if isinstance(t, ClassVal):
        return isinstance(c, ClassVal) and c.issub(t)
    return False


def is_np(eng, v):
    return isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'np'


def _kind(eng, v):
    if isinstance(v, Ref):
        return eng.st.heap[v.id].kind
    return eng.st.fams[v.fid].kind


def to_arr(eng, v, allow_scalar=False):
    v = eng.force(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (Ref, FamRef)):
        k = _kind(eng, v)
        if k == 'np':
            return eng.cell(v).arr
        if k == 'list':
            return stack_segs(eng, eng.cell(v).segs)
    if isinstance(v, tuple):
        return stack_segs(eng, [ListSeg(x) for x in v])
    if isinstance(v, IterVal):
        return stack_segs(eng, list_segs(eng, v))
    if is_scalar(v):
        if allow_scalar:
            return v
        return Arr((), lambda: v)
    raise Unsupported(f"array of {v!r}")


def stack_segs(eng, segs, kind='np'):
    """array from a python list (elements scalars or arrays), stacked along a new axis 0"""
    if not segs:
        return Arr((0, ), lambda k: 0, kind=kind)
    if all(not s.fam for s in segs):
        vals = [to_arr(eng, s.val, True) for s in segs]
        if all(is_scalar(v) for v in vals):
            def fn(k, vals=vals):
                k = simp(k)
                if isinstance(k, int):
                    return vals[k]
                r = vals[-1]
                for j in range(len(vals) - 2, -1, -1):
                    r = site(zi(k) == j, vals[j], r)
                return r
            dt = 'bool' if all(isinstance(v, bool) or (is_z3(v) and v.sort() == B) for v in vals) else 'real'
            return Arr((len(vals), ), fn, kind=kind, dtype=dt)
        vals = [v if isinstance(v, Arr) else Arr((), lambda v=v: v) for v in vals]
        nd = vals[0].ndim
        if any(v.ndim != nd or not all(eng.dim_eq(a, b) for a, b in zip(v.shape, vals[0].shape)) for v in vals):
            raise perr('ValueError', 'inhomogeneous array')

        def fn2(k, *idx):
            k = simp(k)
            if isinstance(k, int):
                return vals[k].at(*idx)
            r = vals[-1].at(*idx)
            for j in range(len(vals) - 2, -1, -1):
                r = site(zi(k) == j, vals[j].at(*idx), r)
            return r

        def rowfn(t):
            t = simp(t)
            if isinstance(t, int):
                return vals[t]
            return eng._ite_arr([(zi(t) == j, vals[j]) for j in range(len(vals))])

        return Arr((len(vals), ) + vals[0].shape, fn2, rowfn=rowfn if nd else None, kind=kind)
    # families
    parts = []
    n = 0
    proto = None
    for s in segs:
        if s.val is UNKNOWN:
            raise Unsupported("list read in the middle of its construction loop")
        if s.fam:
            a = to_arr(eng, s.val, True)
            parts.append((n, s, a))
            n = sadd(n, s.n)
        else:
            a = to_arr(eng, s.val, True)
            parts.append((n, s, a))
            n = sadd(n, 1)
        proto = a
    if any(is_scalar(p[2]) != is_scalar(proto) for p in parts):
        raise Unsupported("mixed list")

    def pick(t):
        t = simp(t)
        res = None
        cases = []
        for off, s, a in parts:
            if s.fam:
                pos = ssub(t, off)
                src = seg_src(s, pos)
                x = subst(a, [(s.ivar, zi(src))])
                cond = z3.And(zi(t) >= zi(off), zi(t) < zi(sadd(off, s.n)))
            else:
                x = a
                cond = zi(t) == zi(off)
            cond = simp(cond)
            if cond is True:
                return x
            if cond is False:
                continue
            cases.append((zb(cond), x))
        return cases

    shape = (n, ) + (() if is_scalar(proto) else proto.shape)

    def fn3(k, *idx):
        c = pick(k)
        if not isinstance(c, list):
            return c if is_scalar(c) else c.at(*idx)
        g = lambda x: x if is_scalar(x) else x.at(*idx)
        r = g(c[-1][1])
        for cond, x in reversed(c[:-1]):
            r = site(cond, g(x), r)
        return r

    def rowfn3(t):
        c = pick(t)
        if not isinstance(c, list):
            return c
        if len(c) == 1:
            return c[0][1]
        return eng._ite_arr(c)

    return Arr(shape, fn3, rowfn=None if is_scalar(proto) else rowfn3, kind=kind)


def seg_src(s, pos, eng=None):
    f = getattr(s, 'filt', None)
    if f is not None:
        if eng is not None:
            for e in f.inst_sel(pos):
                eng.assume(e)
        return f.sel(zi(pos))
    return pos


def wrap(eng, arr, kind):
    if is_scalar(arr):
        return arr
    if kind == 'np':
        if arr.ndim == 0:
            return arr.at()
        return eng.new_np(arr)
    if arr.ndim == 0:
        return arr.at()
    return arr.with_kind('jnp')


def np_to_jnp(eng, r):
    if is_np(eng, r):
        return eng.cell(r).arr.with_kind('jnp')
    if isinstance(r, tuple):
        return tuple(np_to_jnp(eng, x) for x in r)
    return r


def kind_of(eng, *vs):
    k = None
    for v in vs:
        if isinstance(v, Arr):
            return 'jnp' if v.kind == 'jnp' else 'np'
        if is_np(eng, v):
            k = 'np'
    return k or 'np'


def result_kind(eng, flavor, *vs):
    if flavor == 'jnp':
        return 'jnp'
    return kind_of(eng, *vs) if flavor is None else flavor


def ew1(eng, v, f, flavor=None, dtype=None):
    v = eng.force(v)
    if is_scalar(v):
        return f(v)
    a = to_arr(eng, v)
    k = result_kind(eng, flavor, v)
    return wrap(eng, Arr(a.shape, lambda *i: f(a.at(*i)), dtype=dtype or a.dtype), k)


def broadcast_shapes(eng, s1, s2):
    n = max(len(s1), len(s2))
    a = (1, ) * (n - len(s1)) + tuple(s1)
    b = (1, ) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif eng.dim_eq(x, y):
            out.append(x)
        elif isinstance(x, int) and isinstance(y, int):
            raise perr('ValueError', 'operands could not be broadcast')
        elif eng.entails(z3.And(zi(x) != zi(y), zi(x) != 1, zi(y) != 1)):
            raise perr('ValueError', 'operands could not be broadcast')
        else:
            raise Unsupported(f"broadcast {x} vs {y}")
    return tuple(out)


def bcast_at(a, idx, out_ndim):
    if is_scalar(a):
        return a
    off = out_ndim - a.ndim
    sub = []
    for k in range(a.ndim):
        s = a.shape[k]
        sub.append(0 if isinstance(s, int) and s == 1 else idx[off + k])
    return a.at(*sub)


def ew2(eng, x, y, f, flavor=None, dtype=None):
    x, y = eng.force(x), eng.force(y)
    if is_scalar(x) and is_scalar(y):
        return f(x, y)
    a = x if is_scalar(x) else to_arr(eng, x)
    b = y if is_scalar(y) else to_arr(eng, y)
    if is_scalar(a):
        shape = b.shape
    elif is_scalar(b):
        shape = a.shape
    else:
        shape = broadcast_shapes(eng, a.shape, b.shape)
    nd = len(shape)
    k = result_kind(eng, flavor, x, y)
    return wrap(eng, Arr(shape, lambda *i: f(bcast_at(a, i, nd), bcast_at(b, i, nd)), dtype=dtype or 'real'), k)


def _sum_fn(eng, n, f):
    """sum_{k<n} f(k), symbolic sums kept in a linear normal form"""
    n = simp(n)
    if isinstance(n, int):
        acc = 0
        for k in range(n):
            acc = sadd(acc, f(k))
        return acc
    with bvars() as (k, ):
        t = z3.simplify(in_range(z3.simplify(zr(f(k))), k, zi(n)), som=True)
        return sum_term(n, k, t)


def in_range(t, k, n):
    """t under the assumption 0 <= k < n"""
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    return z3.substitute(t, (k >= 0, T), (z3.IntVal(0) <= k, T), (k < n, T), (n <= k, F), (k >= n, F), (n > k, T), (k < 0, F), (k <= -1, F))


def sum_term(n, k, t):
    if not contains_var(t, k):
        return lit(z3.simplify(t * z3.ToReal(zi(n))))
    if z3.is_app(t):
        kd = t.decl().kind()
        if kd == z3.Z3_OP_ADD:
            acc = 0
            for c in t.children():
                acc = sadd(acc, sum_term(n, k, c))
            return acc
        if kd == z3.Z3_OP_UMINUS:
            return smul(-1, sum_term(n, k, t.arg(0)))
        if kd == z3.Z3_OP_MUL:
            fs = list(t.children())
            out = [x for x in fs if not contains_var(x, k)]
            ins = [x for x in fs if contains_var(x, k)]
            if out:
                body = ins[0] if len(ins) == 1 else z3.simplify(z3.Product(*ins), som=True)
                r = sum_term(n, k, body)
                for x in out:
                    r = smul(lit(x), r)
                return r
        if kd == z3.Z3_OP_ITE and not contains_var(t.arg(0), k):
            return site(t.arg(0), sum_term(n, k, t.arg(1)), sum_term(n, k, t.arg(2)))
    body = z3.simplify(z3.If(z3.And(k >= 0, k < n), t, z3.RealVal(0)), som=True)
    return SUM(zi(n), bind('%s', [k], body))


def matmul(eng, x, y):
    a, b = to_arr(eng, x), to_arr(eng, y)
    k = kind_of(eng, x, y)
    if 'jnp' in (getattr(x, 'kind', None), getattr(y, 'kind', None)):
        k = 'jnp'
    if a.ndim == 0 or b.ndim == 0:
        raise perr('ValueError', 'matmul with scalar')
    ka, kb = a.shape[-1], b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not eng.dim_eq(ka, kb):
        if isinstance(ka, int) and isinstance(kb, int):
            raise perr('ValueError', 'matmul shape mismatch')
        raise Unsupported(f"matmul dims {ka} {kb}")
    n = ka if isinstance(ka, int) else kb
    if a.ndim == 1 and b.ndim == 1:
        return _sum_fn(eng, n, lambda q: smul(a.at(q), b.at(q)))
    if a.ndim == 2 and b.ndim == 1:
        return wrap(eng, Arr((a.shape[0], ), lambda i: _sum_fn(eng, n, lambda q: smul(a.at(i, q), b.at(q)))), k)
    if a.ndim == 1 and b.ndim == 2:
        return wrap(eng, Arr((b.shape[1], ), lambda j: _sum_fn(eng, n, lambda q: smul(a.at(q), b.at(q, j)))), k)
    if a.ndim == 2 and b.ndim == 2:
        return wrap(eng, Arr((a.shape[0], b.shape[1]), lambda i, j: _sum_fn(eng, n, lambda q: smul(a.at(i, q), b.at(q, j)))), k)
    raise Unsupported("matmul ndim")


def sdiv(a, b):
    if is_z3(a) or is_z3(b):
        if is_concrete(b) and not is_z3(b) and b != 0:
            return smul(a, Fraction(1) / Fraction(b))
        return lit(zr(a) / zr(b))
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    if b == 0:
        raise perr('ZeroDivisionError')
    return Fraction(a) / Fraction(b)


def spow(x, n):
    n = simp(n) if is_z3(n) else n
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, int):
        if not is_z3(x):
            return Fraction(x)**n if n < 0 else x**n
        if n < 0:
            return sdiv(1, spow(x, -n))
        r = 1
        for _ in range(n):
            r = smul(r, x)
        return r
    if isinstance(n, Fraction) and n == Fraction(1, 2):
        return ssqrt(x)
    if is_z3(n) and n.sort() == I:
        return POW(zr(x), n)
    raise Unsupported("power")


def ssqrt(x):
    if is_concrete(x) and not is_z3(x):
        if x == 0:
            return 0
        if x == 1:
            return 1
    return SQRT(z3.simplify(zr(x), som=True))


def smin(a, b):
    if is_inf(a) or is_inf(b):
        if not is_z3(a) and a == float('inf'):
            return b
        if not is_z3(b) and b == float('inf'):
            return a
        return float('-inf')
    if not is_z3(a) and not is_z3(b):
        return min(a, b)
    return site(zr(a) <= zr(b), a, b)


def smax(a, b):
    if is_inf(a) or is_inf(b):
        if not is_z3(a) and a == float('-inf'):
            return b
        if not is_z3(b) and b == float('-inf'):
            return a
        return float('inf')
    if not is_z3(a) and not is_z3(b):
        return max(a, b)
    return site(zr(a) >= zr(b), a, b)


def sabs(a):
    if not is_z3(a):
        return abs(a)
    return site((a if a.sort() == I else zr(a)) >= 0, a, smul(-1, a))


# ------------------------------------------------------------------------------------ operators


def binop(eng, op, l, r):
    if isinstance(op, ast.MatMult):
        return matmul(eng, l, r)
    if isinstance(op, ast.Add):
        if isinstance(l, (str, SymStr)) and isinstance(r, (str, SymStr)):
            return eng.mkstr([l, r])
        if isinstance(l, tuple) and isinstance(r, tuple):
            return l + r
        if isinstance(l, (Ref, FamRef)) and _kind(eng, l) == 'list' and isinstance(r, (Ref, FamRef)) and _kind(eng, r) == 'list':
            return eng.alloc(ListCell(list(eng.cell(l).segs) + list(eng.cell(r).segs)))
        return ew2(eng, l, r, sadd)
    if isinstance(op, ast.Sub):
        return ew2(eng, l, r, ssub)
    if isinstance(op, ast.Mult):
        for a, b in ((l, r), (r, l)):
            if isinstance(a, (Ref, FamRef)) and _kind(eng, a) == 'list' and is_scalar(b):
                return list_repeat(eng, a, b)
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if isinstance(a, str) and isinstance(b, int):
                return a * b
        return ew2(eng, l, r, smul)
    if isinstance(op, ast.Div):
        return ew2(eng, l, r, sdiv)
    if isinstance(op, ast.Pow):
        return ew2(eng, l, r, spow)
    if isinstance(op, ast.FloorDiv):
        def fd(a, b):
            if not is_z3(a) and not is_z3(b):
                return a // b
            if isint(a) and isinstance(b, int) and b > 0:
                return lit(z3.simplify(zi(a) / b))
            if isint(a) and isint(b) and eng.entails(zi(b) > 0):
                return zi(a) / zi(b)
            return z3.ToInt(zr(a) / zr(b)) if eng.entails(zr(b) > 0) else _uns("floordiv")
        return ew2(eng, l, r, fd)
    if isinstance(op, ast.Mod):
        if isinstance(l, (str, SymStr)):
            return SymStr([Opaque(_sk(eng, 'str', STR))])
        def md(a, b):
            if not is_z3(a) and not is_z3(b):
                return a % b
            if isint(a) and isint(b):
                return zi(a) % zi(b)
            x, y = zr(a), zr(b)
            return x - z3.ToReal(z3.ToInt(x / y)) * y
        return ew2(eng, l, r, md)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        def bo(a, b):
            a, b = zb(a), zb(b)
            if isinstance(op, ast.BitAnd):
                return simp(z3.And(a, b))
            if isinstance(op, ast.BitOr):
                return simp(z3.Or(a, b))
            return simp(z3.Xor(a, b))
        return ew2(eng, l, r, bo, dtype='bool')
    raise Unsupported(f"operator {type(op).__name__}")


def _uns(m):
    raise Unsupported(m)


def logical_and(eng, a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    if is_z3(a) and is_z3(b):
        return simp(z3.And(zb(a), zb(b)))
    return ew2(eng, a, b, lambda x, y: simp(z3.And(zb(x), zb(y))), dtype='bool')


def str_eq(eng, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa = a.parts if isinstance(a, SymStr) else (a, )
    pb = b.parts if isinstance(b, SymStr) else (b, )
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], KeyPart) and isinstance(pb[0], KeyPart):
        if pa[0].fam == pb[0].fam:
            return simp(zi(pa[0].idx) == zi(pb[0].idx))
    if len(pa) == len(pb):
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False if len(pa) == 1 else _uns("string comparison")
            elif isinstance(x, KeyPart) and isinstance(y, KeyPart) and x.fam == y.fam:
                conds.append(zi(x.idx) == zi(y.idx))
            elif is_z3(x) and is_z3(y):
                conds.append(x == y)
            elif isinstance(x, Opaque) and isinstance(y, Opaque):
                conds.append(x.term == y.term)
            else:
                raise Unsupported("string comparison")
        return simp(z3.And(*conds)) if conds else True
    raise Unsupported("string comparison")


def compare(eng, op, a, b):
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and isinstance(op, (ast.Eq, ast.NotEq)):
        r = str_eq(eng, a, b)
        if isinstance(op, ast.Eq):
            return r
        return (not r) if isinstance(r, bool) else lit(z3.Not(r))
    if a is None or b is None or isinstance(a, str) != isinstance(b, str):
        if isinstance(op, ast.Eq):
            return a is b
        if isinstance(op, ast.NotEq):
            return a is not b
        raise perr('TypeError', 'comparison')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if len(a) != len(b):
                r = False
            else:
                cs = [compare(eng, ast.Eq(), eng.force(x), eng.force(y)) for x, y in zip(a, b)]
                r = simp(z3.And(*[zb(c) for c in cs])) if cs else True
            if isinstance(op, ast.Eq):
                return r
            return (not r) if isinstance(r, bool) else lit(z3.Not(r))
    if isinstance(a, Ext) or isinstance(b, Ext):
        if isinstance(op, ast.Eq):
            return a == b
        if isinstance(op, ast.NotEq):
            return not (a == b)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.term.sort() == b.term.sort():
        if isinstance(op, ast.Eq):
            return simp(a.term == b.term)
        if isinstance(op, ast.NotEq):
            return simp(a.term != b.term)

    def f(x, y):
        if is_inf(x) or is_inf(y):
            if is_z3(x) or is_z3(y):
                raise Unsupported("comparison with inf")
        if not is_z3(x) and not is_z3(y):
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
                    ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y}[type(op)]()
        if isint(x) and isint(y):
            x, y = zi(x), zi(y)
        elif isinstance(op, (ast.Eq, ast.NotEq)) and is_z3(x) and is_z3(y) and x.sort() == B and y.sort() == B:
            pass
        else:
            x, y = zr(x), zr(y)
        return simp({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
                     ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y}[type(op)]())

    return ew2(eng, a, b, f, dtype='bool')


def contains(eng, container, x):
    if isinstance(container, str) and isinstance(x, str):
        return x in container
    if isinstance(container, tuple):
        r = False
        for y in container:
            c = compare(eng, ast.Eq(), eng.force(x), eng.force(y))
            r = c if r is False else (True if r is True or c is True else simp(z3.Or(zb(r), zb(c))))
        return r
    if isinstance(container, Opaque):
        # membership in an opaque user collection of names
        if isinstance(x, SymStr) and len(x.parts) == 1 and isinstance(x.parts[0], KeyPart):
            kp = x.parts[0]
            f = z3.Function(f"member_{container.term}_{kp.fam}", I, B)
            return f(zi(kp.idx))
        if isinstance(x, str):
            return z3.Bool(f"member_{container.term}_{x}")
    if isinstance(container, (Ref, FamRef)):
        c = eng.cell(container)
        if getattr(c, 'havoc', False):
            return _sk(eng, 'havoc', B)
        if c.kind in ('list', 'set'):
            segs = c.segs if c.kind == 'list' else [ListSeg(y) for y in c.items]
            conds = []
            for s in segs:
                if s.fam:
                    if s.val is UNKNOWN:
                        from .loops import NeedCarry
                        raise NeedCarry(('list', container.id), 'havoc')
                    e = compare(eng, ast.Eq(), x, s.val)
                    j = fresh('j', I)
                    inr = z3.And(j >= 0, j < zi(s.n))
                    conds.append(z3.Exists([j], z3.And(inr, subst(zb(e), [(s.ivar, zi(seg_src(s, j)))]))))
                else:
                    conds.append(zb(compare(eng, ast.Eq(), eng.force(x), eng.force(s.val))))
            return simp(z3.Or(*conds)) if conds else False
        if c.kind == 'dict':
            return dict_has(eng, c, x)
    if isinstance(container, IterVal):
        r = eng.alloc(ListCell(list_segs(eng, container)))
        return contains(eng, r, x)
    raise Unsupported(f"'in' on {container!r}")


# ------------------------------------------------------------------------------------ dict


def key_part(k):
    if isinstance(k, SymStr) and len(k.parts) == 1 and isinstance(k.parts[0], KeyPart):
        return k.parts[0]
    return None


def dict_has(eng, c, key):
    kp = key_part(key)
    conds = []
    for s in c.segs:
        if s.fam:
            if kp is not None and s.famkey == kp.fam:
                cond = z3.And(zi(kp.idx) >= 0, zi(kp.idx) < zi(s.src_n if hasattr(s, 'src_n') else s.n))
                f = getattr(s, 'filt', None)
                if f is not None:
                    cond = z3.And(zi(kp.idx) >= 0, zi(kp.idx) < zi(f.N), f.cond_at(kp.idx))
                conds.append(cond)
            elif kp is None and isinstance(key, str):
                raise Unsupported("literal key in family dict")
        else:
            e = _keyeq(eng, s.key, key)
            if getattr(s, 'opt', None) is not None and e is not False:
                e = s.opt if e is True else z3.And(e, s.opt)
            if e is True:
                return True
            if e is not False:
                conds.append(e)
    return simp(z3.Or(*conds)) if conds else False


def _keyeq(eng, a, b):
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        ka, kb = key_part(a), key_part(b)
        if (ka is None) != (kb is None):
            return False  # declared families do not contain the literal names used by the code
        if ka is not None and ka.fam != kb.fam:
            return False
        return str_eq(eng, a, b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if is_z3(a) or is_z3(b):
        if is_scalar(a) and is_scalar(b):
            return simp(zi(a) == zi(b))
        return False
    return a == b


def no_opt(c):
    if any(getattr(s, 'opt', None) is not None for s in c.segs):
        raise Unsupported("order of a dict with conditional entries")
    return c


def dict_get(eng, ref, c, key, default=None, has_default=False):
    kp = key_part(key)
    for fam, idx, val in reversed(c.overlays):
        if kp is not None and fam == kp.fam:
            if same(idx, kp.idx):
                return val
            if not eng.entails(zi(idx) != zi(kp.idx)):
                base = DictCell(c.segs, c.missing, [o for o in c.overlays if o is not (fam, idx, val)][:len(c.overlays) - 1])
                other = dict_get(eng, ref, base, key, default, has_default)
                return eng.merge_vals([(zi(idx) == zi(kp.idx), val), (zi(idx) != zi(kp.idx), other)])
    if kp is not None and c.missing is not None and c.missing[0] == 'midloop':
        for fam, idx in c.missing[1]:
            if fam == kp.fam and not same(idx, kp.idx):
                raise Unsupported("dict read at another key inside its update loop")
    for s in c.segs:
        if s.fam:
            if kp is not None and s.famkey == kp.fam:
                if s.val is UNKNOWN:
                    raise Unsupported("dict under construction")
                f = getattr(s, 'filt', None)
                v = subst(s.val, [(s.ivar, zi(kp.idx))])
                cond = z3.And(zi(kp.idx) >= 0, zi(kp.idx) < zi(s.n))
                if f is not None:
                    cond = z3.And(zi(kp.idx) >= 0, zi(kp.idx) < zi(f.N), f.cond_at(kp.idx))
                if eng.entails(cond):
                    return v

                def missing():
                    if has_default:
                        return default
                    raise perr('KeyError', key)

                return eng.branch2(cond, lambda: v, missing)
        else:
            e = _keyeq(eng, s.key, key)
            if getattr(s, 'opt', None) is not None and e is not False:
                e = s.opt if e is True else z3.And(e, s.opt)
                if eng.entails(e):
                    e = True
            if e is True:
                return s.val
            if e is not False:
                rest = DictCell([x for x in c.segs if x is not s], c.missing, c.overlays)
                return eng.branch2(e, lambda: s.val, lambda: dict_get(eng, ref, rest, key, default, has_default))
    if has_default:
        return default
    raise perr('KeyError', key)


def dict_set(eng, ref, key, val):
    c = eng.cell(ref).copy()
    kp = key_part(key)
    for k, s in enumerate(c.segs):
        if s.fam:
            if kp is not None and s.famkey == kp.fam:
                f = getattr(s, 'filt', None)
                if f is not None and not eng.entails(z3.And(zi(kp.idx) >= 0, zi(kp.idx) < zi(f.N), f.cond_at(kp.idx))):
                    raise Unsupported("update of filtered dict")
                if s.val is UNKNOWN:
                    continue
                if c.overlays and c.overlays[-1][0] == kp.fam and same(c.overlays[-1][1], kp.idx):
                    c.overlays.pop()
                c.overlays.append((kp.fam, kp.idx, val))
                eng.set_cell(ref, c)
                return
        else:
            e = _keyeq(eng, s.key, key)
            if getattr(s, 'opt', None) is not None and e is not False and k != len(c.segs) - 1:
                raise Unsupported("dict store over a conditional entry")
            if e is True:
                c.segs[k] = DictSeg(s.key, val)
                eng.set_cell(ref, c)
                return
            if e is not False:
                raise Unsupported("dict store with undecided key")
    c.segs.append(DictSeg(key, val))
    eng.set_cell(ref, c)


def dict_update(eng, ref, other):
    other = eng.force(other)
    oc = eng.cell(other)
    if oc.kind == 'dict':
        if oc.overlays:
            raise Unsupported("dict update with overlays")
        no_opt(oc)
        for s in oc.segs:
            if s.fam:
                c = eng.cell(ref).copy()
                if any(x.fam and x.famkey == s.famkey for x in c.segs):
                    raise Unsupported("dict update family")
                c.segs.append(s)
                eng.set_cell(ref, c)
            else:
                dict_set(eng, ref, s.key, s.val)
        return
    raise Unsupported("dict.update")


def dict_iter(eng, c, what):
    parts = []
    cur = []
    for s in no_opt(c).segs:
        if s.fam:
            if s.val is UNKNOWN:
                raise Unsupported("dict under construction")
            if cur:
                parts.append(IterPart(items=cur))
                cur = []

            def item(j, s=s):
                src = seg_src(s, j, eng)
                k = subst(s.key, [(s.ivar, zi(src))])
                if what == 'keys':
                    return k
                v = subst(s.val, [(s.ivar, zi(src))])
                for fam, idx, val in c.overlays:
                    if fam == s.famkey:
                        cond = simp(zi(idx) == zi(src))
                        v = val if cond is True else v if cond is False else eng.merge_vals([(cond, val), (z3.Not(cond), v)])
                return v if what == 'values' else (k, v)

            parts.append(IterPart(n=s.n, item=item))
        else:
            cur.append(s.key if what == 'keys' else s.val if what == 'values' else (s.key, s.val))
    if cur:
        parts.append(IterPart(items=cur))
    return IterVal(parts)


# ------------------------------------------------------------------------------------ list


def list_segs(eng, v):
    v = eng.force(v)
    if isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'list':
        return list(eng.cell(v).segs)
    segs = []
    for p in eng.iter_parts(v):
        if p.n is None:
            segs += [ListSeg(x) for x in p.items]
        else:
            n = simp(p.n)
            if isinstance(n, int):
                segs += [ListSeg(p.item(k)) for k in range(n)]
            else:
                iv = fresh('li', I)
                segs.append(ListSeg(p.item(iv), n, iv))
    return segs


def list_extend(eng, ref, v):
    c = eng.cell(ref).copy()
    c.segs += list_segs(eng, v)
    eng.set_cell(ref, c)


def list_repeat(eng, ref, n):
    n = simp(n)
    segs = eng.cell(ref).segs
    if isinstance(n, int):
        return eng.alloc(ListCell(list(segs) * max(n, 0)))
    if len(segs) == 1 and not segs[0].fam:
        iv = fresh('rep', I)
        cnt = n if eng.entails(zi(n) >= 0) else z3.If(zi(n) > 0, zi(n), 0)
        return eng.alloc(ListCell([ListSeg(segs[0].val, cnt, iv)]))
    raise Unsupported("list repetition")


def list_get(eng, c, k):
    n = 0
    for s in c.segs:
        n = sadd(n, s.n if s.fam else 1)
    if isinstance(k, SliceV):
        return list_slice(eng, c, k, n)
    if isinstance(k, int) and k < 0:
        # from the end
        last = c.segs[-1] if c.segs else None
        if last is not None and not last.fam:
            if k == -1:
                return last.val
            return list_get(eng, ListCell(c.segs[:-1]), k + 1)
        k = sadd(n, k)
    if isinstance(k, bool):
        k = int(k)
    off = 0
    cases = []
    for s in c.segs:
        ln = s.n if s.fam else 1
        cond = simp(z3.And(zi(k) >= zi(off), zi(k) < zi(sadd(off, ln))))
        if cond is not False:
            if s.fam:
                if s.val is UNKNOWN:
                    raise Unsupported("read of list under construction")
                v = subst(s.val, [(s.ivar, zi(seg_src(s, ssub(k, off))))])
            else:
                v = s.val
            if cond is True:
                return v
            cases.append((cond, v))
        off = sadd(off, ln)
    if not cases:
        raise perr('IndexError', 'list index out of range')
    oob = simp(z3.Not(z3.Or(*[c_ for c_, _ in cases])))
    if oob is not False and not eng.entails(z3.Not(zb(oob))):
        def bad():
            raise perr('IndexError', 'list index out of range')
        return eng.branch2(oob, bad, lambda: cases[0][1] if len(cases) == 1 else eng.merge_vals(cases))
    return cases[0][1] if len(cases) == 1 else eng.merge_vals(cases)


def list_slice(eng, c, k, n):
    if k.step not in (None, 1):
        raise Unsupported("list slice step")
    lo = 0 if k.lo is None else k.lo
    hi = n if k.hi is None else k.hi
    if isinstance(lo, int) and lo < 0:
        lo = sadd(n, lo)
    if isinstance(hi, int) and hi < 0:
        hi = sadd(n, hi)
    # segment-aligned slices only
    off = 0
    out = []
    for s in c.segs:
        ln = s.n if s.fam else 1
        end = sadd(off, ln)
        if eng.entails(z3.And(zi(off) >= zi(lo), zi(end) <= zi(hi))):
            out.append(s)
        elif eng.entails(z3.Or(zi(end) <= zi(lo), zi(off) >= zi(hi))):
            pass
        elif s.fam and s.val is not UNKNOWN and getattr(s, 'filt', None) is None:
            a = lo if eng.entails(zi(lo) >= zi(off)) else off if eng.entails(zi(lo) <= zi(off)) else _uns("slice")
            b = hi if eng.entails(zi(hi) <= zi(end)) else end if eng.entails(zi(hi) >= zi(end)) else _uns("slice")
            iv = fresh('sl', I)
            cnt = ssub(b, a)
            if not eng.entails(zi(cnt) >= 0):
                cnt = z3.If(zi(cnt) > 0, zi(cnt), 0)
            out.append(ListSeg(subst(s.val, [(s.ivar, iv + zi(ssub(a, off)))]), cnt, iv))
        else:
            raise Unsupported("list slice")
        off = end
    return eng.alloc(ListCell(out))


# ------------------------------------------------------------------------------------ array indexing


def norm_index(eng, k, n):
    if isinstance(k, bool):
        raise Unsupported("bool index")
    if isinstance(k, Fraction) and k.denominator == 1:
        k = int(k)
    if isinstance(k, int):
        return sadd(n, k) if k < 0 else k
    if is_z3(k):
        if k.sort() == R:
            k = z3.ToInt(k)
        if eng.entails(k >= 0):
            return k
        if eng.entails(k < 0):
            return sadd(n, k)
        return z3.If(k < 0, zi(n) + k, k)
    raise Unsupported(f"index {k!r}")


def norm_slice(eng, s, n):
    """-> (lo, length, step)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        step = simp(step)
    if step == -1 and s.lo is None and s.hi is None:
        return ssub(n, 1), n, -1

    def clamp(v, default):
        if v is None:
            return default
        v = eng.force(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(0, min(v, n))
        if isinstance(v, int) and v < 0:
            v = sadd(n, v)
        z = zi(v)
        if not isinstance(v, int) and not eng.entails(z >= 0):
            z = z3.If(z < 0, z + zi(n), z)
            z = z3.If(z < 0, 0, z)
        if not eng.entails(z <= zi(n)):
            z = z3.If(z > zi(n), zi(n), z)
        return simp(z)

    lo = clamp(s.lo, 0)
    hi = clamp(s.hi, n)
    ln = ssub(hi, lo)
    if isinstance(ln, int):
        ln = max(0, ln)
    elif not eng.entails(zi(ln) >= 0):
        ln = z3.If(zi(ln) > 0, zi(ln), 0)
    if step != 1:
        if isinstance(step, int) and step > 1:
            if isinstance(ln, int):
                ln = (ln + step - 1) // step
            else:
                ln = (zi(ln) + (step - 1)) / step
        else:
            raise Unsupported("slice step")
    return lo, ln, step


def arr_getitem(eng, a, key, as_kind):
    if not isinstance(key, tuple):
        key = (key, )
    if any(k is Ellipsis for k in key):
        p = [j for j, k in enumerate(key) if k is Ellipsis][0]
        nn = sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:p] + (SliceV(None, None, None), ) * (a.ndim - nn) + key[p + 1:]
    nn = sum(1 for k in key if k is not None)
    if nn > a.ndim:
        raise perr('IndexError', 'too many indices')
    key = tuple(eng.force(k) for k in key) + (SliceV(None, None, None), ) * (a.ndim - nn)
    # fast path: family-block slices along axis 0
    fast = seg_getitem(eng, a, key)
    if fast is not None:
        a, key = fast
    shape = []
    plan = []   # per source axis: ('idx', k) | ('sl', outpos, lo, step) | ('gather', outpos, arr)
    rowsel = None
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, SliceV):
            lo, ln, step = norm_slice(eng, k, n)
            plan.append(('sl', len(shape), lo, step))
            shape.append(ln)
        elif is_scalar(k):
            plan.append(('idx', norm_index(eng, k, n)))
        else:
            g = to_arr(eng, k)
            if g.dtype == 'bool':
                raise Unsupported("boolean mask")
            if g.ndim != 1 or any(p[0] == 'gather' for p in plan):
                raise Unsupported("fancy indexing")
            plan.append(('gather', len(shape), g))
            shape.append(g.shape[0])
        ax += 1

    def src(idx):
        out = []
        for p in plan:
            if p[0] == 'idx':
                out.append(p[1])
            elif p[0] == 'sl':
                out.append(sadd(smul(p[3], idx[p[1]]), p[2]))
            else:
                gi = p[2].at(idx[p[1]])
                out.append(_as_int(gi))
        return out

    if not shape:
        return a.at(*src(()))
    rowfn = None
    term = None
    full_tail = all(p[0] == 'sl' and p[2] == 0 and p[3] == 1 and eng.dim_eq(shape[p[1]], a.shape[j]) for j, p in enumerate(plan) if j > 0)
    if a.ndim > 1 and full_tail and None not in key:
        p0 = plan[0]
        if p0[0] == 'idx':
            return a.row(p0[1]).with_kind(as_kind)
        if p0[0] == 'sl':
            rowfn = lambda t: a.row(sadd(smul(p0[3], t), p0[2]))
        else:
            rowfn = lambda t: a.row(_as_int(p0[2].at(t)))
    if key[0] is None and all(isinstance(k, SliceV) for k in key[1:]) and len(key) == a.ndim + 1 and all(
            p[2] == 0 and p[3] == 1 and eng.dim_eq(shape[p[1]], a.shape[j]) for j, p in enumerate(plan)):
        rowfn = lambda t: a
    if a.ndim == 1 and len(shape) == 1 and plan[0][0] == 'sl' and plan[0][2] == 0 and plan[0][3] == 1 and eng.dim_eq(shape[0], a.shape[0]):
        return a.with_kind(as_kind)
    if len(shape) == 1:
        rowfn = None
    return Arr(shape, lambda *idx: a.at(*src(idx)), rowfn=rowfn, kind=as_kind, dtype=a.dtype)


def _as_int(v):
    if isinstance(v, Fraction):
        return int(v)
    if is_z3(v) and v.sort() == R:
        # ToReal(int) -> int
        w = z3.simplify(v)
        if w.decl().kind() == z3.Z3_OP_TO_REAL:
            return lit(w.arg(0))
        return z3.ToInt(v)
    return v


def seg_blocks(eng, a):
    """axis-0 family-block view: list of (offset, Seg)"""
    if a.segs is None or a.segs[0] != 0:
        return None
    return a.segs[1]


def seg_getitem(eng, a, key):
    """a[d*e : d*(e+1)] / a[d*e + r] on an array made of n blocks of d rows each -> index the e-th block"""
    segs = seg_blocks(eng, a)
    if segs is None or len(segs) != 1 or not segs[0].fam:
        return None
    s = segs[0]
    d = s.arr.shape[0]
    if isinstance(d, int) and d == 1:
        return None
    k0 = key[0]
    cands = eng.st.ghost.get('index_vars', ())
    if isinstance(k0, SliceV) and k0.step in (None, 1) and k0.lo is not None and k0.hi is not None:
        for e in cands:
            if eng.entails(z3.And(zi(k0.lo) == zi(d) * e, zi(k0.hi) == zi(d) * e + zi(d))):
                return subst(s.arr, [(s.ivar, e)]), (SliceV(None, None, None), ) + tuple(key[1:])
    elif is_scalar(k0):
        for e in cands:
            off = z3.simplify(zi(k0) - zi(d) * e, som=True)
            if eng.entails(z3.And(off >= 0, off < zi(d))):
                return subst(s.arr, [(s.ivar, e)]), (lit(off), ) + tuple(key[1:])
    return None


def arr_write(eng, a, key, val, op='set'):
    if not isinstance(key, tuple):
        key = (key, )
    key = tuple(eng.force(k) for k in key) + (SliceV(None, None, None), ) * (a.ndim - len(key))
    region = []
    vshape = []
    for ax, k in enumerate(key):
        n = a.shape[ax]
        if isinstance(k, SliceV):
            lo, ln, step = norm_slice(eng, k, n)
            if step != 1:
                raise Unsupported("strided write")
            region.append(('sl', lo, ln, len(vshape)))
            vshape.append(ln)
        elif is_scalar(k):
            region.append(('idx', norm_index(eng, k, n)))
        else:
            raise Unsupported("fancy write")
    val = eng.force(val)
    va = val if is_scalar(val) else to_arr(eng, val)
    if not is_scalar(va):
        if va.ndim == 0:
            va = va.at()
        elif va.ndim == 1 and not vshape and isinstance(va.shape[0], int) and va.shape[0] == 1:
            va = va.at(0)  # numpy: size-1 array to scalar
        else:
            broadcast_shapes(eng, va.shape, tuple(vshape))
    nd = len(vshape)

    def valfn(*idx):
        vi = []
        for p, i in zip(region, idx):
            if p[0] == 'sl':
                vi.append(ssub(i, p[1]))
        x = bcast_at(va, vi, nd)
        if isinstance(x, bool) or (is_z3(x) and x.sort() == B):
            if a.dtype != 'bool':
                x = zr(x)
        if op == 'add':
            return sadd(a.at(*idx), x)
        if op in ATOPS:
            return ATOPS[op](a.at(*idx), x)
        return x

    def cond(*idx):
        cs = []
        for p, i in zip(region, idx):
            if p[0] == 'idx':
                cs.append(zi(i) == zi(p[1]))
            else:
                cs.append(z3.And(zi(i) >= zi(p[1]), zi(i) < zi(p[1]) + zi(p[2])))
        return simp(z3.And(*cs))

    def fn(*idx):
        c = cond(*idx)
        if c is True:
            return valfn(*idx)
        if c is False:
            return a.at(*idx)
        return site(c, valfn(*idx), a.at(*idx))

    return Arr(a.shape, fn, kind=a.kind, meta=('write', a, region, valfn, va, op), dtype=a.dtype)


def getitem(eng, o, k):
    if isinstance(o, Arr):
        return arr_getitem(eng, o, k, o.kind)
    if isinstance(o, tuple):
        if isinstance(k, SliceV):
            return o[slice(k.lo, k.hi, k.step)]
        if isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise perr('IndexError', 'tuple index')
            return o[k]
        if is_z3(k):
            return eng.merge_vals([(zi(k) == j, x) for j, x in enumerate(o)])
    if isinstance(o, (Ref, FamRef)):
        c = eng.cell(o)
        if c.kind == 'dict':
            return dict_get(eng, o, c, k)
        if c.kind == 'list':
            return list_get(eng, c, k)
        if c.kind == 'np':
            r = arr_getitem(eng, c.arr, k, 'np')
            if isinstance(r, Arr):
                v = eng.alloc(NpCell(r, view_of=o))
                key = ('views', o.id if isinstance(o, Ref) else (o.fid, str(o.idx)))
                eng.st.ghost[key] = eng.st.ghost.get(key, ()) + ((v.id, k), )
                return v
            return r
        if c.kind == 'obj':
            return eng.call(eng.getattr(o, '__getitem__'), [k], {})
    if isinstance(o, AtProxy):
        return AtProxy(o.arr, (k, ))
    if isinstance(o, Ext):
        if o.path.endswith('.s_'):
            return k
        return o  # typing generics
    if isinstance(o, str):
        if isinstance(k, int):
            return o[k]
        if isinstance(k, SliceV):
            return o[slice(k.lo, k.hi, k.step)]
    if isinstance(o, IterVal):
        return list_get(eng, ListCell(list_segs(eng, o)), k)
    if is_z3(o) and o.sort() == R and (k is None or (isinstance(k, tuple) and k and all(x is None for x in k))):
        return Arr((1, ) * (1 if k is None else len(k)), lambda *ix: o)      # element of an array: a 0-d array
    raise Unsupported(f"subscript of {o!r}")


def np_write(eng, o, new):
    """in-place change of a numpy buffer; views of it see the change"""
    c = eng.cell(o)
    if c.view_of is not None:
        raise Unsupported("write through an array view")
    if isinstance(o, Ref) and ('part', o.id) in eng.st.ghost:
        raise Unsupported("write to an array that a branch may alias")
    eng.set_cell(o, NpCell(new.with_kind('np'), None))
    key = ('views', o.id if isinstance(o, Ref) else (o.fid, str(o.idx)))
    vs = eng.st.ghost.get(key, ())
    if vs and not isinstance(o, Ref):
        raise Unsupported("write to a viewed array of a family")
    todo = [(o, vid, k) for vid, k in vs]
    while todo:
        b, vid, k = todo.pop()
        if vid not in eng.st.heap:
            continue
        eng.st.heap[vid] = NpCell(arr_getitem(eng, eng.cell(b).arr, k, 'np'), view_of=b)
        todo += [(Ref(vid), v2, k2) for v2, k2 in eng.st.ghost.get(('views', vid), ())]


def setitem(eng, o, k, v):
    if isinstance(o, (Ref, FamRef)):
        c = eng.cell(o)
        if c.kind == 'dict':
            return dict_set(eng, o, k, v)
        if c.kind == 'np':
            np_write(eng, o, arr_write(eng, c.arr, k, v))
            return
        if c.kind == 'list':
            if isinstance(k, int) and all(not s.fam for s in c.segs):
                c = c.copy()
                c.segs[k] = ListSeg(v)
                eng.set_cell(o, c)
                return
            raise Unsupported("list item assignment")
        if c.kind == 'obj':
            return eng.call(eng.getattr(o, '__setitem__'), [k, v], {})
    if isinstance(o, Arr):
        raise perr('TypeError', 'JAX arrays are immutable')
    raise Unsupported(f"item assignment on {o!r}")


# ------------------------------------------------------------------------------------ attributes


def meth(name, f):
    return Native(name, f)


def arr_attr(eng, v, a, name, is_np_):
    kind = 'np' if is_np_ else 'jnp'
    if name == 'shape':
        return tuple(a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        n = 1
        for s in a.shape:
            n = smul(n, s)
        return n
    if name == 'T':
        return wrap(eng, transpose(eng, a), kind)
    if name == 'dtype':
        return Ext('numpy.dtype_obj')
    if name == 'at':
        return AtProxy(a)
    if name == 'copy':
        return meth('copy', lambda e, args, kw: wrap(e, a, kind))
    if name == 'transpose':
        return meth('transpose', lambda e, args, kw: wrap(e, transpose(e, a), kind))
    if name == 'astype':
        def astype(e, args, kw):
            t = args[0]
            if isinstance(t, Ext) and t.path.split('.')[-1] in ('int', 'int32', 'int64'):
                return wrap(e, Arr(a.shape, lambda *i: _as_int(a.at(*i)) if not _isboolv(a.at(*i)) else zi(a.at(*i))), kind)
            if isinstance(t, Ext) and t.path.split('.')[-1] in ('float', 'float32', 'float64'):
                return wrap(e, Arr(a.shape, lambda *i: a.at(*i) if not _isboolv(a.at(*i)) else zr(a.at(*i))), kind)
            if isinstance(t, Ext) and t.path.split('.')[-1] in ('bool', 'bool_'):
                return wrap(e, Arr(a.shape, lambda *i: simp(zb(a.at(*i))), dtype='bool'), kind)
            return wrap(e, a, kind)
        return meth('astype', astype)
    if name in ('tolist', ):
        return meth('tolist', lambda e, args, kw: e.alloc(ListCell(list_segs(e, v))))
    if name in ('sum', 'any', 'all', 'min', 'max', 'dot', 'clip', 'argsort', 'reshape', 'flatten', 'ravel', 'mean'):
        f = LIB.get('numpy.' + name)
        if f is None:
            raise Unsupported(f"array method {name}")
        return meth(name, lambda e, args, kw: f(e, [v] + args, kw))
    if name == 'item':
        return meth('item', lambda e, args, kw: a.at(*[0] * a.ndim))
    if name == 'block_until_ready':
        return meth(name, lambda e, args, kw: v)
    raise Unsupported(f"array attribute {name}")


def _isboolv(x):
    return isinstance(x, bool) or (is_z3(x) and x.sort() == B)


def transpose(eng, a):
    if a.ndim < 2:
        return a
    if a.ndim > 2:
        raise Unsupported("transpose ndim>2")
    segs = None
    if a.segs is not None:
        segs = (1 - a.segs[0], [Seg(transpose(eng, s.arr), s.n, s.ivar) for s in a.segs[1]])
    return Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i), segs=segs, kind=a.kind, dtype=a.dtype)


def cell_attr(eng, v, c, name):
    if c.kind == 'np':
        return arr_attr(eng, v, c.arr, name, True)
    if c.kind == 'dict':
        if name in ('keys', 'values', 'items'):
            return meth(name, lambda e, a, kw: dict_iter(e, e.cell(v), name))
        if name == 'get':
            return meth('get', lambda e, a, kw: dict_get(e, v, e.cell(v), e.force(a[0]), a[1] if len(a) > 1 else None, True))
        if name == 'setdefault':
            def sd(e, a, kw):
                h = dict_has(e, e.cell(v), e.force(a[0]))
                if h is True:
                    return dict_get(e, v, e.cell(v), a[0])
                if h is False:
                    dict_set(e, v, a[0], a[1] if len(a) > 1 else None)
                    return a[1] if len(a) > 1 else None
                raise Unsupported("setdefault")
            return meth(name, sd)
        if name == 'update':
            def up(e, a, kw):
                for x in a:
                    dict_update(e, v, x)
                for k, x in kw.items():
                    dict_set(e, v, k, x)
            return meth(name, up)
        if name == 'copy':
            return meth(name, lambda e, a, kw: e.alloc(e.cell(v).copy()))
        if name == 'pop':
            def pop(e, a, kw):
                c = e.cell(v).copy()
                for j, s in enumerate(c.segs):
                    if not s.fam and _keyeq(e, s.key, a[0]) is True:
                        no_opt(c)
                        del c.segs[j]
                        e.set_cell(v, c)
                        return s.val
                if len(a) > 1:
                    return a[1]
                raise perr('KeyError', a[0])
            return meth(name, pop)
        if name == 'clear':
            return meth(name, lambda e, a, kw: e.set_cell(v, DictCell([])))
    if c.kind == 'list':
        if name == 'append':
            def app(e, a, kw):
                c = e.cell(v).copy()
                if getattr(e.cell(v), 'havoc', False):
                    return
                c.segs.append(ListSeg(a[0]))
                e.set_cell(v, c)
            return meth(name, app)
        if name == 'extend':
            return meth(name, lambda e, a, kw: list_extend(e, v, a[0]))
        if name == 'copy':
            return meth(name, lambda e, a, kw: e.alloc(e.cell(v).copy()))
        if name == 'pop':
            def lpop(e, a, kw):
                c = e.cell(v).copy()
                if a and a[0] not in (-1, ):
                    raise Unsupported("list.pop(i)")
                if not c.segs or c.segs[-1].fam:
                    raise Unsupported("list.pop")
                x = c.segs.pop()
                e.set_cell(v, c)
                return x.val
            return meth(name, lpop)
        if name == 'clear':
            return meth(name, lambda e, a, kw: e.set_cell(v, ListCell([])))
        if name == 'index':
            raise Unsupported("list.index")
    if c.kind == 'set':
        if name == 'add':
            def sadd_(e, a, kw):
                c = e.cell(v).copy()
                c.items.append(a[0])
                e.set_cell(v, c)
            return meth(name, sadd_)
    if c.kind == 'obj':
        raise Unsupported(f"attribute {name}")
    raise perr('AttributeError', name)


ATOPS = {'multiply': smul, 'mul': smul, 'divide': sdiv, 'min': smin, 'max': smax, 'subtract': ssub}


def value_attr(eng, v, name):
    if isinstance(v, Arr):
        return arr_attr(eng, v, v, name, v.kind == 'np')
    if isinstance(v, AtProxy):
        if name == 'set':
            return meth('at.set', lambda e, a, kw: arr_write(e, v.arr, v.key[0], a[0]))
        if name == 'add':
            return meth('at.add', lambda e, a, kw: arr_write(e, v.arr, v.key[0], a[0], 'add'))
        if name in ATOPS:
            return meth('at.' + name, lambda e, a, kw: arr_write(e, v.arr, v.key[0], a[0], name))
        raise Unsupported(f"at[].{name}")
    if isinstance(v, ExcVal):
        if name == 'args':
            return tuple(v.args)
        if name in ('with_traceback', ):
            return meth(name, lambda e, a, kw: v)
    if is_scalar(v):
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'T' or name == 'real':
            return v
        if name in ('item', 'copy'):
            return meth(name, lambda e, a, kw: v)
        if name == 'astype':
            def astype(e, args, kw):
                t = args[0]
                if isinstance(t, Ext) and t.path.split('.')[-1] in ('bool', 'bool_'):
                    return simp(zb(v))
                if isinstance(t, Ext) and t.path.split('.')[-1].startswith('int'):
                    return zi(v) if _isboolv(v) else v
                return zr(v) if _isboolv(v) else v
            return meth(name, astype)
        if name in ('any', 'all'):
            return meth(name, lambda e, a, kw: e.truth(v))
        if name == 'is_integer':
            return meth(name, lambda e, a, kw: lit(z3.IsInt(zr(v))))
        if name == 'at':
            return AtProxy(Arr((), lambda: v))
    if isinstance(v, Opaque) and name == 'copy' and v.pyt is not None and 'ndarray' in str(v.pyt):
        return meth(name, lambda e, a, kw: v)          # an immutable array: its copy is the same value
    if isinstance(v, (str, SymStr)):
        if name == 'format':
            return meth(name, lambda e, a, kw: SymStr([Opaque(_sk(eng, 'str', STR))]))
        if isinstance(v, str) and name in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'split', 'join', 'replace'):
            def sm(e, a, kw):
                if all(isinstance(x, str) for x in a):
                    r = getattr(v, name)(*a)
                    return e.new_list(r) if isinstance(r, list) else r
                if name == 'join':
                    items = e.concrete_items(a[0])
                    out = []
                    for j, x in enumerate(items):
                        if j:
                            out.append(v)
                        out.append(x)
                    return e.mkstr(out)
                raise Unsupported(f"str.{name}")
            return meth(name, sm)
    if isinstance(v, (FuncVal, BoundMethod)) and name in ('__name__', '__qualname__'):
        return v.name if isinstance(v, FuncVal) else v.func.name
    if isinstance(v, Opaque):
        h = getattr(v, 'attrs', {}).get(name)
        if h is not None:
            return h
    if isinstance(v, tuple) and name in ('index', 'count'):
        raise Unsupported("tuple method")
    raise Unsupported(f"attribute {name} of {v!r}")


CONSTS = {
    'numpy.pi': lambda: PI, 'math.pi': lambda: PI,
    'numpy.inf': lambda: float('inf'), 'math.inf': lambda: float('inf'),
    'numpy.newaxis': lambda: None,
}


def ext_attr(eng, v, name):
    p = canon_path(v.path + '.' + name) if v.path == 'jax.numpy' else v.path + '.' + name
    full = v.path + '.' + name
    cp = canon_path(full)
    if cp in CONSTS:
        return CONSTS[cp]()
    if full in eng.st.ghost.get('ext_consts', {}):
        return eng.st.ghost['ext_consts'][full]
    if full.startswith('safe_autonomy_simulation') and name.isupper():
        return ext_const(eng, full)
    return Ext(full)


def ext_const(eng, full):
    c = z3.Real(full.split('.')[-1])
    return c


def ext_class_attr(eng, c, name):
    """attributes provided by external base classes"""
    if c.path == 'builtins.object' or c.path == 'abc.ABC':
        if name == '__init__':
            return Native('object.__init__', _obj_init)
        return None
    h = EXT_BASE.get(c.path)
    if h and name in h:
        return h[name] if isinstance(h[name], Native) else Native(f"{c.path}.{name}", h[name])
    return None


def _obj_init(eng, args, kw):
    if len(args) > 1 or kw:
        raise perr('TypeError', 'object.__init__ takes no arguments')
    return None


def _opaque_init(eng, args, kw):
    return None


EXT_BASE = {}


def special_instantiate(eng, cls, args, kwargs):
    """pydantic models and exceptions"""
    for b in cls.mro():
        if isinstance(b, Ext):
            if b.path == 'pydantic.BaseModel':
                fields = {}
                for c in reversed(cls.mro()):
                    if hasattr(c, 'attrs'):
                        for k, v in c.attrs.items():
                            if not isinstance(v, (FuncVal, tuple)):
                                fields[k] = v
                for k, v in kwargs.items():
                    if k in fields:
                        fields[k] = v
                return eng.alloc(ObjCell(cls, fields))
            bc = getattr(_bi, b.path.split('.')[-1], None)
            if b.path.startswith('builtins.') and isinstance(bc, type) and issubclass(bc, BaseException):
                return ExcVal(cls, tuple(args))
    return None


def ext_call_fallback(eng, f):
    n = f.path.split('.')[-1]
    if f.path.startswith('builtins.'):
        c = getattr(_bi, n, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return lambda e, a, kw: ExcVal(f, tuple(a))
    if f.path.startswith('typing.') or f.path.startswith('abc.'):
        return lambda e, a, kw: a[0] if a else None
    return None


def context_enter(eng, v):
    return v


# ------------------------------------------------------------------------------------ iteration


def iter_parts(eng, v):
    if isinstance(v, IterVal):
        return v.parts
    if isinstance(v, tuple):
        return [IterPart(items=list(v))]
    if isinstance(v, str):
        return [IterPart(items=list(v))]
    if isinstance(v, Arr):
        n = simp(v.shape[0])
        if isinstance(n, int):
            return [IterPart(items=[_rowv(eng, v, k) for k in range(n)])]
        return [IterPart(n=n, item=lambda t: _rowv(eng, v, t))]
    if isinstance(v, (Ref, FamRef)):
        c = eng.cell(v)
        if c.kind == 'list':
            parts = []
            cur = []
            for s in c.segs:
                if s.fam:
                    if s.val is UNKNOWN:
                        raise Unsupported("iteration over list under construction")
                    if cur:
                        parts.append(IterPart(items=cur))
                        cur = []
                    parts.append(IterPart(n=s.n, item=lambda j, s=s: subst(s.val, [(s.ivar, zi(seg_src(s, j, eng)))])))
                else:
                    cur.append(s.val)
            if cur:
                parts.append(IterPart(items=cur))
            return parts
        if c.kind == 'dict':
            return dict_iter(eng, c, 'keys').parts
        if c.kind == 'np':
            a = c.arr
            n = simp(a.shape[0])
            if isinstance(n, int):
                return [IterPart(items=[_rowv(eng, a, k) for k in range(n)])]
            return [IterPart(n=n, item=lambda t: _rowv(eng, a, t))]
        if c.kind == 'set':
            return [IterPart(items=list(c.items))]
    raise Unsupported(f"iteration over {v!r}")


def _rowv(eng, a, k):
    r = a.row(k)
    if isinstance(r, Arr):
        return wrap(eng, r, a.kind)
    return r


# ------------------------------------------------------------------------------------ builtins


@reg('builtins.range')
def _range(eng, a, kw):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi, st = simp(lo), simp(hi), simp(st)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return IterVal([IterPart(items=list(range(lo, hi, st)))])
    if isinstance(st, int) and st == 1:
        n = ssub(hi, lo)
        if not eng.entails(zi(n) >= 0):
            n = z3.If(zi(n) > 0, zi(n), z3.IntVal(0))
        return IterVal([IterPart(n=n, item=lambda i: sadd(i, lo))])
    if isinstance(st, int) and st == -1:
        n = ssub(lo, hi)
        if not eng.entails(zi(n) >= 0):
            n = z3.If(zi(n) > 0, zi(n), z3.IntVal(0))
        return IterVal([IterPart(n=n, item=lambda i: ssub(lo, i))])
    if eng.entails(zi(st) > 0):
        d = zi(ssub(hi, lo))
        n = z3.If(d > 0, (d + zi(st) - 1) / zi(st), z3.IntVal(0))
        return IterVal([IterPart(n=n, item=lambda i: sadd(lo, smul(st, i)))])
    raise Unsupported("range step")


@reg('builtins.len')
def _len(eng, a, kw):
    return eng.length(a[0])


@reg('builtins.enumerate')
def _enumerate(eng, a, kw):
    start = kw.get('start', a[1] if len(a) > 1 else 0)
    off = start
    parts = []
    for p in eng.iter_parts(a[0]):
        if p.n is None:
            parts.append(IterPart(items=[(sadd(off, k), x) for k, x in enumerate(p.items)]))
            off = sadd(off, len(p.items))
        else:
            parts.append(IterPart(n=p.n, item=lambda i, p=p, off=off: (sadd(off, i), p.item(i))))
            off = sadd(off, p.n)
    return IterVal(parts)


@reg('builtins.zip')
def _zip(eng, a, kw):
    lists = [eng.iter_parts(x) for x in a]
    if all(len(l) == len(lists[0]) for l in lists):
        parts = []
        ok = True
        for ps in zip(*lists):
            if all(p.n is None for p in ps):
                if len({len(p.items) for p in ps}) != 1 and len(lists[0]) > 1:
                    ok = False
                    break
                parts.append(IterPart(items=list(zip(*[p.items for p in ps]))))
            elif all(p.n is not None for p in ps):
                if not all(eng.dim_eq(p.n, ps[0].n) for p in ps):
                    if len(lists[0]) > 1:
                        ok = False
                        break
                    n = ps[0].n
                    for p in ps[1:]:
                        n = smin(n, p.n)
                else:
                    n = ps[0].n
                parts.append(IterPart(n=n, item=lambda i, ps=ps: tuple(p.item(i) for p in ps)))
            else:
                ok = False
                break
        if ok:
            return IterVal(parts)
    # general: same total length, index through
    lens = [eng.length(x) for x in a]
    if all(eng.dim_eq(n, lens[0]) for n in lens):
        n = simp(lens[0])
        if isinstance(n, int):
            return IterVal([IterPart(items=[tuple(eng.getitem(x, k) for x in a) for k in range(n)])])
        return IterVal([IterPart(n=n, item=lambda i: tuple(eng.getitem(x, i) for x in a))])
    raise Unsupported("zip")


@reg('builtins.list', 'builtins.sorted_')
def _list(eng, a, kw):
    if not a:
        return eng.alloc(ListCell([]))
    return eng.alloc(ListCell(list_segs(eng, a[0])))


@reg('builtins.tuple')
def _tuple(eng, a, kw):
    if not a:
        return ()
    return tuple(eng.concrete_items(a[0]))


@reg('builtins.set', 'builtins.frozenset')
def _set(eng, a, kw):
    if not a:
        return eng.alloc(SetCell([]))
    if isinstance(a[0], Opaque):
        return a[0]
    return eng.alloc(ListCell(list_segs(eng, a[0])))


@reg('builtins.dict', 'collections.OrderedDict')
def _dict(eng, a, kw):
    r = eng.alloc(DictCell([]))
    if a:
        src = eng.force(a[0])
        if isinstance(src, (Ref, FamRef)) and eng.cell(src).kind == 'dict':
            eng.set_cell(r, eng.cell(src).copy())
        else:
            for p in eng.iter_parts(src):
                if p.n is None:
                    for kv in p.items:
                        k, v = eng.unpack(eng.force(kv), 2)
                        dict_set(eng, r, k, v)
                else:
                    iv = fresh('di', I)
                    k, v = p.item(iv)
                    kp = key_part(k)
                    if kp is None or not same(kp.idx, iv):
                        raise Unsupported("dict from symbolic items")
                    c = eng.cell(r).copy()
                    c.segs.append(DictSeg(k, v, p.n, iv, kp.fam))
                    eng.set_cell(r, c)
    for k, v in kw.items():
        dict_set(eng, r, k, v)
    return r


@reg('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys')
def _fromkeys(eng, a, kw):
    val = a[1] if len(a) > 1 else None
    r = eng.alloc(DictCell([]))
    src = eng.force(a[0])
    segs = []
    if isinstance(src, (Ref, FamRef)) and eng.cell(src).kind == 'dict':
        for s in no_opt(eng.cell(src)).segs:
            d = DictSeg(s.key, val, s.n, s.ivar, s.famkey)
            if getattr(s, 'filt', None) is not None:
                d.filt = s.filt
            segs.append(d)
        eng.set_cell(r, DictCell(segs))
        return r
    for p in eng.iter_parts(src):
        if p.n is None:
            for k in p.items:
                dict_set(eng, r, k, val)
        else:
            iv = fresh('fk', I)
            k = p.item(iv)
            kp = key_part(k)
            if kp is None:
                raise Unsupported("fromkeys")
            c = eng.cell(r).copy()
            if same(kp.idx, iv):
                c.segs.append(DictSeg(k, val, p.n, iv, kp.fam))
            else:
                # filtered family: find filter object by its selector
                from .loops import filter_of
                f = filter_of(eng, kp.idx, iv)
                if f is None:
                    raise Unsupported("fromkeys of permuted keys")
                d = DictSeg(SymStr([KeyPart(kp.fam, iv)]), val, p.n, iv, kp.fam)
                d.filt = f
                c.segs.append(d)
            eng.set_cell(r, c)
    return r


@reg('builtins.isinstance')
def _isinstance(eng, a, kw):
    v, t = eng.force(a[0]), eng.force(a[1])
    ts = list(t) if isinstance(t, tuple) else [t]
    out = False
    for x in ts:
        x = eng.force(x)
        r = isinst1(eng, v, x)
        if r is True:
            return True
        out = out or r
    return out


def isinst1(eng, v, t):
    from .core import ClassVal
    if isinstance(t, ClassVal):
        c = eng.obj_class(v)
        if c is not None:
            return c.issub(t)
        if isinstance(v, ExcVal):
            return exc_issub(v.cls, t)
        if isinstance(v, Opaque):
            return t.name in v.pyt
        return False
    if isinstance(t, Ext):
        p = t.path
        n = p.split('.')[-1]
        if isinstance(v, Opaque):
            return p in v.pyt or n in v.pyt or p == 'builtins.object'
        if p in ('numpy.ndarray', ):
            return is_np(eng, v) or (isinstance(v, Arr) and v.kind == 'np')
        if p in ('jax.numpy.ndarray', 'jax.Array'):
            return (isinstance(v, Arr) and v.kind == 'jnp')
        if p == 'builtins.list':
            return isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'list'
        if p == 'builtins.dict':
            return isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'dict'
        if p == 'builtins.tuple':
            return isinstance(v, tuple)
        if p == 'builtins.str':
            return isinstance(v, (str, SymStr))
        if p == 'builtins.bool':
            return _isboolv(v)
        if p == 'builtins.int':
            return isint(v) or _isboolv(v)
        if p == 'builtins.float':
            return isinstance(v, (Fraction, float)) or (is_z3(v) and v.sort() == R)
        if p == 'numbers.Number':
            return is_scalar(v)
        if p in ('builtins.object', ):
            return True
        if isinstance(v, ExcVal):
            return exc_issub(v.cls, t)
        if isinstance(v, Opaque):
            return n in v.pyt
        if p in ('numpy.generic', 'numpy.floating', 'numpy.integer', 'numpy.bool_', 'numpy.number'):
            return False
        c = eng.obj_class(v)
        if c is not None:
            return t in c.mro() if isinstance(c, ClassVal) else False
        return False
    if t is None:
        return v is None
    raise Unsupported(f"isinstance {t!r}")


@reg('builtins.issubclass')
def _issubclass(eng, a, kw):
    return a[0].issub(a[1])


@reg('builtins.hasattr')
def _hasattr(eng, a, kw):
    try:
        eng.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


@reg('builtins.getattr')
def _getattr(eng, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with symbolic name")
    if len(a) > 2:
        try:
            return eng.getattr(a[0], a[1])
        except PyRaise:
            return a[2]
    return eng.getattr(a[0], a[1])


@reg('builtins.setattr')
def _setattr(eng, a, kw):
    eng.setattr(a[0], a[1], a[2])


@reg('builtins.callable')
def _callable(eng, a, kw):
    v = eng.force(a[0])
    return isinstance(v, (FuncVal, BoundMethod, Native, JitFn, PartialFn))


@reg('builtins.bool', 'numpy.bool_')
def _bool(eng, a, kw):
    if not a:
        return False
    t = eng.truth(a[0])
    return simp(t) if is_z3(t) else t


@reg('builtins.int', 'numpy.int32', 'numpy.int64')
def _int(eng, a, kw):
    v = eng.force(a[0]) if a else 0
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, )):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if is_np(eng, v) or isinstance(v, Arr):
        v = to_arr(eng, v)
        v = v.at(*[0] * v.ndim)
    if is_z3(v):
        if v.sort() == I:
            return v
        if v.sort() == B:
            return zi(v)
        if eng.entails(v >= 0):
            return lit(z3.ToInt(v))
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    raise Unsupported("int()")


@reg('builtins.float', 'numpy.float64', 'numpy.float32')
def _float(eng, a, kw):
    v = eng.force(a[0])
    if isinstance(v, str):
        if v in ('inf', '-inf'):
            return float(v)
        return Fraction(v)
    if isinstance(v, (bool, int, Fraction, float)):
        return v if not isinstance(v, bool) else int(v)
    if is_np(eng, v) or isinstance(v, Arr):
        v = to_arr(eng, v)
        if not all(isinstance(s, int) and s == 1 for s in v.shape):
            raise perr('TypeError', 'only size-1 arrays')
        v = v.at(*[0] * v.ndim)
    if is_scalar(v):
        return lit(zr(v))
    raise Unsupported("float()")


@reg('builtins.str', 'builtins.repr')
def _str(eng, a, kw):
    return eng.to_str(a[0]) if a else ''


@reg('builtins.print')
def _print(eng, a, kw):
    return None


@reg('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs')
def _abs(eng, a, kw):
    return ew1(eng, a[0], sabs)


@reg('builtins.round')
def _round(eng, a, kw):
    v = eng.force(a[0])
    if not is_z3(v):
        return round(v, *[x for x in a[1:]])
    if len(a) == 1 and not kw:
        if v.sort() == I:
            return v
        r = z3.ToInt(zr(v) + z3.RealVal('1/2'))         # ties go to the even neighbour
        return lit(z3.If(z3.And(z3.ToReal(r) == zr(v) + z3.RealVal('1/2'), r % 2 != 0), r - 1, r))
    f = z3.Function('round', R, R)
    return f(zr(v))


@reg('builtins.min')
def _min(eng, a, kw):
    items = a if len(a) > 1 else eng.concrete_items(a[0])
    r = eng.force(items[0])
    for x in items[1:]:
        r = smin(r, eng.force(x))
    return r


@reg('builtins.max')
def _max(eng, a, kw):
    items = a if len(a) > 1 else eng.concrete_items(a[0])
    r = eng.force(items[0])
    for x in items[1:]:
        r = smax(r, eng.force(x))
    return r


@reg('builtins.sum')
def _bsum(eng, a, kw):
    segs = list_segs(eng, a[0])
    acc = a[1] if len(a) > 1 else kw.get('start', 0)
    for s in segs:
        if s.fam:
            from .loops import prefix_sum
            t = eng.force(s.val)
            if not is_scalar(t):
                raise Unsupported("sum of arrays")
            if getattr(s, 'filt', None) is not None:
                raise Unsupported("sum over filter")
            acc = sadd(acc, prefix_sum(eng, s.ivar, zi(t) if isint(t) or _isboolv(t) else zr(t), zi(s.n)))
        else:
            acc = binop(eng, ast.Add(), acc, eng.force(s.val))
    return acc


def _quant(eng, v, is_any):
    segs = list_segs(eng, v)
    conds = []
    for s in segs:
        t = zb(eng.truth(s.val))
        if s.fam:
            j = fresh('qv', I)
            b = z3.simplify(subst_b(t, s, j))
            rng = z3.And(j >= 0, j < zi(s.n))
            conds.append(z3.Exists([j], z3.And(rng, b)) if is_any else z3.ForAll([j], z3.Implies(rng, b)))
        else:
            conds.append(t)
    if not conds:
        return not is_any
    return simp(z3.Or(*conds) if is_any else z3.And(*conds))


def subst_b(t, s, j):
    return zb(subst(t, [(s.ivar, zi(seg_src(s, j)))]))


@reg('builtins.any')
def _bany(eng, a, kw):
    return _quant(eng, a[0], True)


@reg('builtins.all')
def _ball(eng, a, kw):
    return _quant(eng, a[0], False)


@reg('builtins.reversed')
def _reversed(eng, a, kw):
    out = []
    for p in reversed(eng.iter_parts(a[0])):
        if p.n is None:
            out.append(IterPart(items=list(reversed(p.items))))
        else:
            out.append(IterPart(n=p.n, item=lambda i, p=p: p.item(ssub(ssub(p.n, 1), i))))
    return IterVal(out)


@reg('builtins.map')
def _map(eng, a, kw):
    out = []
    for p in (eng.iter_parts(a[1]) if len(a) == 2 else _zip(eng, a[1:], {}).parts):
        tup = (lambda x: [x]) if len(a) == 2 else (lambda x: list(x))
        if p.n is None:
            out.append(IterPart(items=[eng.call(a[0], tup(x), {}) for x in p.items]))
        else:
            out.append(IterPart(n=p.n, item=lambda i, p=p: eng.call(a[0], tup(p.item(i)), {})))
    return IterVal(out)


@reg('builtins.slice')
def _slice(eng, a, kw):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@reg('builtins.type')
def _type(eng, a, kw):
    c = eng.obj_class(a[0])
    if c is None:
        raise Unsupported("type()")
    return c


@reg('builtins.object')
def _object(eng, a, kw):
    return Opaque(_sk(eng, 'object', OBJ))


@reg('builtins.super')
def _super(eng, a, kw):
    raise Unsupported("super() form")


@reg('builtins.next')
def _next(eng, a, kw):
    segs = list_segs(eng, a[0])
    if not segs:
        if len(a) > 1:
            return a[1]
        raise perr('StopIteration')
    return list_get(eng, ListCell(segs), 0)


@reg('builtins.iter')
def _iter(eng, a, kw):
    return IterVal(eng.iter_parts(a[0]))


@reg('copy.copy')
def _copycopy(eng, a, kw):
    v = eng.force(a[0])
    if isinstance(v, (Ref, FamRef)):
        c = eng.cell(v)
        if c.kind in ('list', 'dict', 'np', 'obj'):
            return eng.alloc(c.copy())
    return v


@reg('copy.deepcopy')
def _deepcopy(eng, a, kw):
    v = eng.force(a[0])
    if isinstance(v, Ref):
        c = eng.cell(v)
        if c.kind == 'np':
            return eng.alloc(c.copy())
        if c.kind == 'dict':
            return eng.alloc(DictCell([DictSeg(s.key, _deepcopy(eng, [s.val], {}), s.n, s.ivar, s.famkey) for s in no_opt(c).segs], c.missing, c.overlays))
        if c.kind == 'list':
            return eng.alloc(ListCell([ListSeg(_deepcopy(eng, [s.val], {}), s.n, s.ivar) for s in c.segs]))
        raise Unsupported("deepcopy of object")
    return v


# ------------------------------------------------------------------------------------ stdlib misc


@reg('functools.partial')
def _partial(eng, a, kw):
    return PartialFn(a[0], list(a[1:]), dict(kw))


@reg('functools.wraps')
def _wraps(eng, a, kw):
    return Native('wraps', lambda e, aa, k: aa[0])


@reg('warnings.warn')
def _warn(eng, a, kw):
    assumed(eng, 'warnings.warn: records a warning, returns None (default filter does not raise)')
    eng.st.events.append(('warn', a[0]))


@reg('os.makedirs', 'os.path.join', 'datetime.datetime.now', 'open', 'builtins.open')
def _io(eng, a, kw):
    return Opaque(_sk(eng, 'io', OBJ))


# ------------------------------------------------------------------------------------ numpy / jax.numpy


def both(*names):
    """register numpy.X with flavor np and jax.numpy.X with flavor jnp"""
    def d(f):
        for n in names:
            LIB['numpy.' + n] = lambda e, a, kw, f=f: f(e, a, kw, 'np')
            LIB['jax.numpy.' + n] = lambda e, a, kw, f=f: f(e, a, kw, 'jnp')
        return f
    return d


def fl(eng, flavor, *vs):
    """numpy functions applied to jax arrays may return jax arrays; the distinction only matters for
    mutability, numpy creation functions return numpy arrays"""
    return flavor


@both('array', 'asarray', 'copy', 'ascontiguousarray', 'atleast_1d')
def np_array(eng, a, kw, flavor):
    v = eng.force(a[0] if a else kw.get('object', kw.get('a')))
    if isinstance(v, Opaque):
        return v
    if is_scalar(v):
        return v
    x = to_arr(eng, v)
    return wrap(eng, x, flavor)


LIB['numpy.asarray'] = lambda e, a, kw: a[0] if is_np(e, e.force(a[0])) else np_array(e, a, kw, 'np')


def shape_arg(eng, s):
    s = eng.force(s)
    if isinstance(s, tuple):
        return tuple(simp(eng.force(x)) for x in s)
    if isinstance(s, (Ref, FamRef)):
        return tuple(eng.concrete_items(s))
    return (simp(s), )


@both('zeros')
def np_zeros(eng, a, kw, flavor):
    return wrap(eng, Arr(shape_arg(eng, a[0] if a else kw['shape']), lambda *i: 0), flavor)


@both('empty')
def np_empty(eng, a, kw, flavor):
    shp = shape_arg(eng, a[0] if a else kw['shape'])
    if len(shp) == 0:
        return _sk(eng, 'empty', R)
    f = z3.Function(fresh_name('empty'), *([I] * len(shp)), R)
    return wrap(eng, Arr(shp, lambda *i: f(*[zi(k) for k in i])), flavor)


@both('ones')
def np_ones(eng, a, kw, flavor):
    return wrap(eng, Arr(shape_arg(eng, a[0] if a else kw['shape']), lambda *i: 1), flavor)


@both('full')
def np_full(eng, a, kw, flavor):
    v = eng.force(a[1] if len(a) > 1 else kw['fill_value'])
    s = shape_arg(eng, a[0] if a else kw['shape'])
    if is_scalar(v):
        return wrap(eng, Arr(s, lambda *i: v), flavor)
    b = to_arr(eng, v)
    return wrap(eng, Arr(s, lambda *i: bcast_at(b, i, len(s))), flavor)


@both('zeros_like')
def np_zl(eng, a, kw, flavor):
    v = eng.force(a[0])
    if is_scalar(v):
        return 0
    return wrap(eng, Arr(to_arr(eng, v).shape, lambda *i: 0), flavor)


@both('ones_like')
def np_ol(eng, a, kw, flavor):
    v = eng.force(a[0])
    if is_scalar(v):
        return 1
    return wrap(eng, Arr(to_arr(eng, v).shape, lambda *i: 1), flavor)


@both('full_like')
def np_fl(eng, a, kw, flavor):
    return wrap(eng, Arr(to_arr(eng, a[0]).shape, lambda *i: a[1]), flavor)


@both('broadcast_to')
def np_bt(eng, a, kw, flavor):
    v = eng.force(a[0])
    s = shape_arg(eng, a[1] if len(a) > 1 else kw['shape'])
    b = v if is_scalar(v) else to_arr(eng, v)
    if not is_scalar(b):
        bs = broadcast_shapes(eng, b.shape, s)
        if len(bs) != len(s):
            raise perr('ValueError', 'broadcast')
    return wrap(eng, Arr(s, lambda *i: bcast_at(b, i, len(s))), flavor)


@both('eye', 'identity')
def np_eye(eng, a, kw, flavor):
    n = simp(a[0])
    def fn(i, j):
        c = simp(zi(i) == zi(j))
        return site(c, 1, 0) if is_z3(c) else (1 if c else 0)
    return wrap(eng, Arr((n, n), fn), flavor)


@both('diag')
def np_diag(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    if x.ndim == 1:
        def fn(i, j):
            c = simp(zi(i) == zi(j))
            if c is False:
                return 0
            if c is True:
                return x.at(i)
            return site(c, x.at(i), 0)
        return wrap(eng, Arr((x.shape[0], x.shape[0]), fn), flavor)
    return wrap(eng, Arr((x.shape[0], ), lambda i: x.at(i, i)), flavor)


def concat(eng, parts, axis):
    parts = [to_arr(eng, p) for p in parts]
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts):
        raise perr('ValueError', 'concatenate ndim mismatch')
    if axis < 0:
        axis += nd
    ref = parts[0]
    for p in parts[1:]:
        for k in range(nd):
            if k != axis and not eng.dim_eq(p.shape[k], ref.shape[k]):
                if isinstance(p.shape[k], int) and isinstance(ref.shape[k], int) or eng.entails(zi(p.shape[k]) != zi(ref.shape[k])):
                    raise perr('ValueError', 'concatenate shape mismatch')
                s = z3.Solver()
                s.set('timeout', 500)
                s.add(*[e for e in eng.pcs() if not _hq(e)])
                s.add(zi(p.shape[k]) != zi(ref.shape[k]))
                if s.check() == z3.sat:
                    # shapes can differ for some inputs: the call raises there
                    def bad():
                        raise perr('ValueError', 'concatenate shape mismatch')
                    eng.branch2(zi(p.shape[k]) != zi(ref.shape[k]), bad, lambda: None)
                    continue
                raise Unsupported(f"concatenate dims {p.shape} {ref.shape}")
    segs = []
    for p in parts:
        if p.segs is not None and p.segs[0] == axis:
            segs += p.segs[1]
        elif isinstance(simp(p.shape[axis]), int) and simp(p.shape[axis]) == 0:
            continue
        else:
            segs.append(Seg(p))
    if not segs:
        return parts[0]
    if len(segs) == 1 and not segs[0].fam:
        return segs[0].arr
    return seg_array(eng, axis, segs, nd, ref)


def _hq(e):
    from .core import _has_quant
    return _has_quant(e)


def seg_len(s):
    d = s.arr_axis_len
    return smul(s.n, d) if s.fam else d


def seg_array(eng, axis, segs, nd, ref):
    offs = []
    total = 0
    for s in segs:
        d = s.arr.shape[axis]
        ln = smul(s.n, d) if s.fam else d
        if s.fam and contains_var(d, s.ivar):
            ln = None
        offs.append((total, ln, d))
        total = None if (total is None or ln is None) else sadd(total, ln)
    if total is None:
        total = _sk(eng, 'len', I)
        eng.assume(total >= 0)
    shape = list(ref.shape)
    shape[axis] = total

    def locate(r):
        cases = []
        for (off, ln, d), s in zip(offs, segs):
            if off is None or ln is None:
                raise Unsupported("element of variable-size block array")
            cond = simp(z3.And(zi(r) >= zi(off), zi(r) < zi(sadd(off, ln))))
            if cond is False:
                continue
            rel = ssub(r, off)
            if s.fam:
                if isinstance(d, int):
                    if d == 1:
                        q, o = rel, 0
                    else:
                        q, o = simp(zi(rel) / d), simp(zi(rel) % d)
                else:
                    q, o = zi(rel) / zi(d), zi(rel) % zi(d)
                arr = subst(s.arr, [(s.ivar, zi(q))])
            else:
                arr, o = s.arr, rel
            if cond is True:
                return [(True, arr, o)]
            cases.append((cond, arr, o))
        return cases

    def fn(*idx):
        cs = locate(idx[axis])
        if not cs:
            return 0
        def val(arr, o):
            i = list(idx)
            i[axis] = o
            return arr.at(*i)
        r = val(cs[-1][1], cs[-1][2])
        for c, arr, o in reversed(cs[:-1]):
            r = site(c, val(arr, o), r)
        return r

    rowfn = None
    if axis == 0 and nd > 1:
        def rowfn(t):
            cs = locate(t)
            if len(cs) == 1:
                return cs[0][1].row(cs[0][2])
            return eng._ite_arr([(zb(c), arr.row(o)) for c, arr, o in cs])
    return Arr(shape, fn, segs=(axis, segs), rowfn=rowfn, kind='jnp')


def contains_var(t, v):
    if not is_z3(t):
        return False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def seq_items(eng, v):
    """sequence of arrays for concatenate/stack"""
    v = eng.force(v)
    if isinstance(v, tuple):
        return list(v)
    return eng.concrete_items(v)


@both('concatenate')
def np_concatenate(eng, a, kw, flavor):
    axis = kw.get('axis', a[1] if len(a) > 1 else 0)
    v = eng.force(a[0])
    if isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'list' and any(s.fam for s in eng.cell(v).segs):
        return wrap(eng, concat_segs(eng, eng.cell(v).segs, axis), flavor)
    return wrap(eng, concat(eng, seq_items(eng, v), axis), flavor)


def concat_segs(eng, lsegs, axis):
    segs = []
    ref = None
    for s in lsegs:
        x = to_arr(eng, s.val)
        ref = ref or x
        if s.fam:
            if getattr(s, 'filt', None) is not None:
                raise Unsupported("concat of filtered list")
            segs.append(Seg(x, s.n, s.ivar))
        else:
            segs.append(Seg(x))
    return seg_array(eng, axis, segs, ref.ndim, ref)


@both('hstack')
def np_hstack(eng, a, kw, flavor):
    v = eng.force(a[0])
    if isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'list' and any(s.fam for s in eng.cell(v).segs):
        s0 = to_arr(eng, eng.cell(v).segs[0].val)
        return wrap(eng, concat_segs(eng, eng.cell(v).segs, 0 if s0.ndim == 1 else 1), flavor)
    items = [to_arr(eng, x) for x in seq_items(eng, v)]
    items = [Arr((1, ), lambda k, x=x: x.at()) if x.ndim == 0 else x for x in items]
    return wrap(eng, concat(eng, items, 0 if items[0].ndim == 1 else 1), flavor)


def at_least_2d(x):
    if x.ndim == 1:
        return Arr((1, x.shape[0]), lambda i, j: x.at(j), rowfn=lambda t: x, kind=x.kind)
    return x


@both('vstack', 'row_stack')
def np_vstack(eng, a, kw, flavor):
    v = eng.force(a[0])
    if isinstance(v, (Ref, FamRef)) and _kind(eng, v) == 'list' and any(s.fam for s in eng.cell(v).segs):
        segs = []
        for s in eng.cell(v).segs:
            x = at_least_2d(to_arr(eng, s.val))
            segs.append(Seg(x, s.n, s.ivar) if s.fam else Seg(x))
        return wrap(eng, seg_array(eng, 0, segs, 2, segs[0].arr), flavor)
    items = [at_least_2d(to_arr(eng, x)) for x in seq_items(eng, v)]
    return wrap(eng, concat(eng, items, 0), flavor)


@both('column_stack')
def np_colstack(eng, a, kw, flavor):
    items = [to_arr(eng, x) for x in seq_items(eng, a[0])]
    items = [Arr((x.shape[0], 1), lambda i, j, x=x: x.at(i)) if x.ndim == 1 else x for x in items]
    return wrap(eng, concat(eng, items, 1), flavor)


@both('append')
def np_append(eng, a, kw, flavor):
    axis = kw.get('axis', a[2] if len(a) > 2 else None)
    x, y = to_arr(eng, a[0]), to_arr(eng, a[1])
    if axis is None:
        if x.ndim > 1 or y.ndim > 1:
            raise Unsupported("append flatten")
        if y.ndim == 0:
            v = y.at()
            y = Arr((1, ), lambda k: v)
        axis = 0
    return wrap(eng, concat(eng, [x, y], axis), flavor)


@both('stack')
def np_stack(eng, a, kw, flavor):
    axis = kw.get('axis', a[1] if len(a) > 1 else 0)
    v = eng.force(a[0])
    if axis == 0:
        segs = list_segs(eng, v)
        if not segs:
            raise perr('ValueError', 'need at least one array to stack')
        return wrap(eng, stack_segs(eng, segs), flavor)
    x = stack_segs(eng, list_segs(eng, v))
    if x.ndim == 2 and axis in (1, -1):
        return wrap(eng, transpose(eng, x), flavor)
    raise Unsupported("stack axis")


@both('clip')
def np_clip(eng, a, kw, flavor):
    x = a[0] if a else kw.get('a', kw.get('x', kw.get('arr')))
    lo = eng.force(a[1] if len(a) > 1 else kw.get('a_min', kw.get('min', kw.get('lower'))))
    hi = eng.force(a[2] if len(a) > 2 else kw.get('a_max', kw.get('max', kw.get('upper'))))
    if 'out' in kw:
        raise Unsupported("clip out=")
    r = x
    if lo is not None:
        r = ew2(eng, r, lo, smax, flavor)
    if hi is not None:
        r = ew2(eng, r, hi, smin, flavor)
    if lo is None and hi is None and flavor == 'np':
        raise perr('ValueError', 'One of max or min must be given')
    if r is x and is_np(eng, r):
        r = np_array(eng, [r], {}, flavor)
    return r


LIB['jax.lax.clamp'] = lambda e, a, kw: np_clip(e, [a[1], a[0], a[2]], {}, 'jnp')


@both('minimum', 'fmin')
def np_minimum(eng, a, kw, flavor):
    return ew2(eng, a[0], a[1], smin, flavor)


@both('maximum', 'fmax')
def np_maximum(eng, a, kw, flavor):
    return ew2(eng, a[0], a[1], smax, flavor)


@both('where')
def np_where(eng, a, kw, flavor):
    if len(a) == 1:
        raise Unsupported("where(cond)")
    c, x, y = eng.force(a[0]), eng.force(a[1]), eng.force(a[2])
    if is_scalar(c) and is_scalar(x) and is_scalar(y):
        return site(zb(c) if is_z3(c) else bool(c), x, y)
    ops = [v if is_scalar(v) else to_arr(eng, v) for v in (c, x, y)]
    shape = ()
    for o in ops:
        if not is_scalar(o):
            shape = broadcast_shapes(eng, shape, o.shape)
    nd = len(shape)
    return wrap(eng, Arr(shape, lambda *i: site(zb(bcast_at(ops[0], i, nd)), bcast_at(ops[1], i, nd), bcast_at(ops[2], i, nd))), flavor)


LIB['jax.lax.select'] = LIB['jax.numpy.where']


@both('sum')
def np_sum(eng, a, kw, flavor):
    v = eng.force(a[0])
    axis = kw.get('axis', a[1] if len(a) > 1 else None)
    if is_scalar(v):
        return v
    x = to_arr(eng, v)
    if axis is None:
        if x.ndim == 1:
            return _sum_fn(eng, x.shape[0], x.at)
        if x.ndim == 2:
            return _sum_fn(eng, x.shape[0], lambda i: _sum_fn(eng, x.shape[1], lambda j: x.at(i, j)))
        if x.ndim == 0:
            return x.at()
    elif x.ndim == 1 and axis in (0, -1):
        return _sum_fn(eng, x.shape[0], x.at)
    elif x.ndim == 2:
        if axis in (1, -1):
            return wrap(eng, Arr((x.shape[0], ), lambda i: _sum_fn(eng, x.shape[1], lambda j: x.at(i, j))), flavor)
        if axis == 0:
            return wrap(eng, Arr((x.shape[1], ), lambda j: _sum_fn(eng, x.shape[0], lambda i: x.at(i, j))), flavor)
    raise Unsupported("sum axis")


def quant_arr(eng, x, is_any):
    if is_scalar(x):
        return simp(zb(x))
    if x.concrete_shape():
        import itertools as it
        cs = [zb(x.at(*idx)) for idx in it.product(*[range(s) for s in x.shape])]
        if not cs:
            return not is_any
        return simp(z3.Or(*cs) if is_any else z3.And(*cs))
    vs = [fresh('q', I) for k in range(x.ndim)]
    rng = z3.And(*[z3.And(v >= 0, v < zi(s)) for v, s in zip(vs, x.shape)])
    b = zb(x.at(*vs))
    return z3.simplify(z3.Exists(vs, z3.And(rng, b)) if is_any else z3.ForAll(vs, z3.Implies(rng, b)))


@both('any')
def np_any(eng, a, kw, flavor):
    v = eng.force(a[0])
    if kw.get('axis') is not None or len(a) > 1:
        x = to_arr(eng, v)
        ax = kw.get('axis', a[1] if len(a) > 1 else None)
        if x.ndim == 2 and ax in (1, -1):
            return wrap(eng, Arr((x.shape[0], ), lambda i: quant_arr(eng, Arr((x.shape[1], ), lambda j: x.at(i, j)), True), dtype='bool'), flavor)
        if x.ndim == 2 and ax == 0:
            return wrap(eng, Arr((x.shape[1], ), lambda j: quant_arr(eng, Arr((x.shape[0], ), lambda i: x.at(i, j)), True), dtype='bool'), flavor)
        if x.ndim != 1:
            raise Unsupported("any axis")
    return lit(quant_arr(eng, v if is_scalar(v) else to_arr(eng, v), True))


@both('all')
def np_all(eng, a, kw, flavor):
    v = eng.force(a[0])
    if kw.get('axis') is not None or len(a) > 1:
        raise Unsupported("all axis")
    return lit(quant_arr(eng, v if is_scalar(v) else to_arr(eng, v), False))


def _red(eng, v, f2, uf):
    if is_scalar(v):
        return v
    x = to_arr(eng, v)
    if x.ndim == 1 and isinstance(x.shape[0], int):
        r = x.at(0)
        for k in range(1, x.shape[0]):
            r = f2(r, x.at(k))
        return r
    if x.ndim == 1:
        return uf(zi(x.shape[0]), x.as_term())
    raise Unsupported("min/max")


@both('min', 'amin')
def np_min(eng, a, kw, flavor):
    if len(a) > 1 or any(v is not None for v in kw.values()):
        raise Unsupported("min options")
    return _red(eng, eng.force(a[0]), smin, MINV)


@both('max', 'amax')
def np_max(eng, a, kw, flavor):
    if len(a) > 1 or any(v is not None for v in kw.values()):
        raise Unsupported("max options")
    return _red(eng, eng.force(a[0]), smax, MAXV)


@both('square')
def np_square(eng, a, kw, flavor):
    return ew1(eng, a[0], lambda x: smul(x, x), flavor)


@both('sqrt')
def np_sqrt(eng, a, kw, flavor):
    return ew1(eng, a[0], ssqrt, flavor)


LIB['math.sqrt'] = LIB['numpy.sqrt']


def _uf1(name, uf, exact=None):
    def f(eng, a, kw, flavor):
        def g(x):
            if exact and is_concrete(x) and not is_z3(x) and x in exact:
                return exact[x]
            return uf(z3.simplify(zr(x), som=True))
        return ew1(eng, a[0], g, flavor)
    both(name)(f)
    LIB['math.' + name] = LIB['numpy.' + name]


_uf1('sin', SIN, {0: 0})
_uf1('cos', COS, {0: 1})
_uf1('tan', TAN, {0: 0})
_uf1('arccos', ARCCOS)
for _n in ('exp', 'log', 'arcsin', 'arctan', 'tanh', 'deg2rad', 'rad2deg', 'sign', 'floor', 'ceil'):
    if _n == 'sign':
        both('sign')(lambda eng, a, kw, flavor: ew1(eng, a[0], lambda x: site(zr(x) > 0, 1, site(zr(x) < 0, -1, 0)), flavor))
    elif _n == 'floor':
        both('floor')(lambda eng, a, kw, flavor: ew1(eng, a[0], lambda x: lit(z3.ToReal(z3.ToInt(zr(x)))), flavor))
    elif _n == 'ceil':
        both('ceil')(lambda eng, a, kw, flavor: ew1(eng, a[0], lambda x: lit(-z3.ToReal(z3.ToInt(-zr(x)))), flavor))
    else:
        _uf1(_n, z3.Function(_n, R, R))
LIB['math.floor'] = lambda e, a, kw: lit(z3.ToInt(zr(e.force(a[0]))))


@both('power')
def np_power(eng, a, kw, flavor):
    return ew2(eng, a[0], a[1], spow, flavor)


for _n, _op in (('add', sadd), ('subtract', ssub), ('multiply', smul), ('divide', sdiv), ('true_divide', sdiv)):
    both(_n)(lambda eng, a, kw, flavor, _op=_op: ew2(eng, a[0], a[1], _op, flavor))

both('negative')(lambda eng, a, kw, flavor: ew1(eng, a[0], lambda x: smul(-1, x), flavor))


def _cmpfn(name, op):
    both(name)(lambda eng, a, kw, flavor: compare(eng, op, eng.force(a[0]), eng.force(a[1])))


for _n, _o in (('less', ast.Lt()), ('less_equal', ast.LtE()), ('greater', ast.Gt()), ('greater_equal', ast.GtE()), ('equal', ast.Eq()),
               ('not_equal', ast.NotEq())):
    _cmpfn(_n, _o)

both('logical_and')(lambda eng, a, kw, flavor: ew2(eng, a[0], a[1], lambda x, y: simp(z3.And(zb(x), zb(y))), flavor, 'bool'))
both('logical_or')(lambda eng, a, kw, flavor: ew2(eng, a[0], a[1], lambda x, y: simp(z3.Or(zb(x), zb(y))), flavor, 'bool'))
both('logical_not')(lambda eng, a, kw, flavor: ew1(eng, a[0], lambda x: simp(z3.Not(zb(x))), flavor, 'bool'))


@both('dot', 'matmul', 'inner', 'vdot')
def np_dot(eng, a, kw, flavor):
    x, y = eng.force(a[0]), eng.force(a[1])
    if is_scalar(x) or is_scalar(y):
        return binop(eng, ast.Mult(), x, y)
    r = matmul(eng, x, y)
    if isinstance(r, Arr) and flavor == 'np':
        return wrap(eng, r, 'np')
    if is_np(eng, r) and flavor == 'jnp':
        return np_to_jnp(eng, r)
    return r


@both('transpose')
def np_transpose(eng, a, kw, flavor):
    return wrap(eng, transpose(eng, to_arr(eng, a[0])), flavor)


@both('linalg.norm')
def np_norm(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    if len(a) > 2 or any(k in kw and kw[k] is not None for k in ('axis', 'keepdims')):
        raise Unsupported("norm options")
    ord_ = eng.force(a[1] if len(a) > 1 else kw.get('ord', None))
    if isinstance(ord_, float) and ord_ == float('inf') and x.ndim == 1:
        return _red(eng, Arr(x.shape, lambda k: sabs(x.at(k))), smax, MAXV)
    if ord_ is not None and ord_ == 1 and x.ndim == 1:
        return _sum_fn(eng, x.shape[0], lambda k: sabs(x.at(k)))
    if not (ord_ is None or (ord_ == 2 and x.ndim == 1)):
        raise Unsupported("norm options")
    if x.ndim == 0:
        return sabs(x.at())
    if x.ndim == 1:
        return ssqrt(_sum_fn(eng, x.shape[0], lambda k: smul(x.at(k), x.at(k))))
    if x.ndim == 2:
        return ssqrt(_sum_fn(eng, x.shape[0], lambda i: _sum_fn(eng, x.shape[1], lambda k: smul(x.at(i, k), x.at(i, k)))))
    raise Unsupported("norm ndim")


@both('cross')
def np_cross(eng, a, kw, flavor):
    x, y = to_arr(eng, a[0]), to_arr(eng, a[1])
    def fn(i):
        i = simp(i)
        vals = [ssub(smul(x.at(1), y.at(2)), smul(x.at(2), y.at(1))), ssub(smul(x.at(2), y.at(0)), smul(x.at(0), y.at(2))),
                ssub(smul(x.at(0), y.at(1)), smul(x.at(1), y.at(0)))]
        if isinstance(i, int):
            return vals[i]
        return site(zi(i) == 0, vals[0], site(zi(i) == 1, vals[1], vals[2]))
    return wrap(eng, Arr((3, ), fn), flavor)


@both('linspace')
def np_linspace(eng, a, kw, flavor):
    lo, hi = eng.force(a[0]), eng.force(a[1])
    n = simp(eng.force(a[2] if len(a) > 2 else kw.get('num', 50)))
    if set(kw) - {'num'} or len(a) > 3:
        raise Unsupported("linspace options")
    mult = is_z3(hi) and z3.is_rational_value(q := z3.simplify(zr(hi) - zr(n) * zr(lo), som=True)) and q.as_fraction() == 0
    def fn(k):
        if mult:                # lo, 2 lo, ..., n lo
            return smul(sadd(k, 1), lo)
        den = ssub(n, 1)
        if isinstance(den, int) and den == 0:
            return lo
        return sadd(lo, sdiv(smul(k, ssub(hi, lo)), den if isinstance(den, int) else zr(den)))
    r = Arr((n, ), fn)
    r.meta = ('linspace', lo, hi, n)
    return wrap(eng, r, flavor)


@both('arange')
def np_arange(eng, a, kw, flavor):
    it = _range(eng, a, kw)
    out = wrap(eng, to_arr(eng, it), flavor)
    a = [eng.force(x) for x in a]
    start0 = len(a) == 1 or (len(a) == 2 and isinstance(a[0], int) and a[0] == 0)
    if flavor == 'jnp' and start0 and not kw:     # jax's iota rejects a negative length
        n = a[-1]

        def bad():
            raise PyRaise(ExcVal(Ext('builtins.TypeError'), ('iota shape must have every element be nonnegative', )))
        return eng.branch2(zi(n) < 0, bad, lambda: out)
    return out


@both('delete')
def np_delete(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    k = eng.force(a[1])
    axis = kw.get('axis', a[2] if len(a) > 2 else None)
    if x.ndim != 1 or axis not in (0, None):
        raise Unsupported("delete")
    n = x.shape[0]
    if isinstance(k, SliceV):
        lo, ln, step = norm_slice(eng, k, n)
        if step != 1:
            raise Unsupported("delete step")
    elif is_scalar(k):
        lo, ln = norm_index(eng, k, n), 1
    else:
        raise Unsupported("delete fancy")
    return wrap(eng, Arr((ssub(n, ln), ), lambda r: site(simp(zi(r) < zi(lo)), x.at(r), x.at(sadd(r, ln)))), flavor)


@both('roll')
def np_roll(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    s = a[1]
    axis = kw.get('axis', a[2] if len(a) > 2 else None)
    if x.ndim == 2 and axis in (0, 1) and is_scalar(eng.force(s)):
        n = zi(x.shape[axis])
        mv = lambda r: simp((zi(r) - zi(s)) % n)
        return wrap(eng, Arr(x.shape, (lambda r, c: x.at(mv(r), c)) if axis == 0 else (lambda r, c: x.at(r, mv(c)))), flavor)
    if x.ndim != 1:
        raise Unsupported('roll')
    n = zi(x.shape[0])
    return wrap(eng, Arr(x.shape, lambda r: x.at(simp((zi(r) - zi(s)) % n))), flavor)


@both('reshape')
def np_reshape(eng, a, kw, flavor):
    v = eng.force(a[0])
    x = to_arr(eng, v)
    s = eng.force(a[1])
    shp = shape_arg(eng, s) if len(a) == 2 else tuple(a[1:])
    if x.ndim == 1 and len(shp) == 1:
        return wrap(eng, x, flavor)
    if x.ndim == 0 and shp in ((1, ), (-1, )):
        return wrap(eng, Arr((1, ), lambda k: x.at()), flavor)
    if x.ndim == 1 and len(shp) == 2 and shp[0] == 1:
        return wrap(eng, at_least_2d(x), flavor)
    if x.ndim == 1 and len(shp) == 2 and shp[1] == 1:
        return wrap(eng, Arr((x.shape[0], 1), lambda i, j: x.at(i)), flavor)
    if x.ndim == 1 and len(shp) == 2 and isinstance(shp[1], int):
        w = shp[1]
        rows = shp[0] if shp[0] != -1 else simp(zi(x.shape[0]) / w)
        return wrap(eng, Arr((rows, w), lambda i, j: x.at(sadd(smul(i, w), j))), flavor)
    if x.ndim == 2 and shp in ((-1, ), ) and isinstance(x.shape[1], int):
        w = x.shape[1]
        return wrap(eng, Arr((smul(x.shape[0], w), ), lambda k: x.at(simp(zi(k) / w), simp(zi(k) % w))), flavor)
    raise Unsupported("reshape")


@both('ravel')
def np_ravel(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    if x.ndim == 1:
        return wrap(eng, x, flavor)
    if x.ndim == 0:
        return wrap(eng, Arr((1, ), lambda k: x.at()), flavor)
    if x.ndim == 2 and isinstance(x.shape[1], int):
        w = x.shape[1]
        return wrap(eng, Arr((smul(x.shape[0], w), ), lambda k: x.at(simp(zi(k) / w), simp(zi(k) % w))), flavor)
    raise Unsupported("ravel")


LIB['numpy.flatten'] = LIB['numpy.ravel']


@both('expand_dims')
def np_expand(eng, a, kw, flavor):
    ax = kw.get('axis', a[1] if len(a) > 1 else 0)
    x = to_arr(eng, a[0])
    if x.ndim == 1 and ax in (0, ):
        return wrap(eng, at_least_2d(x), flavor)
    if x.ndim == 1 and ax in (1, -1):
        return wrap(eng, Arr((x.shape[0], 1), lambda i, j: x.at(i)), flavor)
    raise Unsupported("expand_dims")


@both('squeeze')
def np_squeeze(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    if x.ndim == 1 and x.shape[0] == 1:
        return x.at(0)
    if x.ndim == 2 and isinstance(x.shape[0], int) and x.shape[0] == 1:
        return wrap(eng, x.row(0), flavor)
    return wrap(eng, x, flavor)


@both('atleast_2d')
def np_al2(eng, a, kw, flavor):
    return wrap(eng, at_least_2d(to_arr(eng, a[0])), flavor)


@both('tile')
def np_tile(eng, a, kw, flavor):
    x = eng.force(a[0])
    n = a[1]
    if is_scalar(x) and is_scalar(n):
        return wrap(eng, Arr((simp(n), ), lambda k: x), flavor)
    raise Unsupported("tile")


@both('array_equal')
def np_arreq(eng, a, kw, flavor):
    x, y = to_arr(eng, a[0]), to_arr(eng, a[1])
    if x.ndim != y.ndim:
        return False
    return lit(quant_arr(eng, Arr(x.shape, lambda *i: simp(zr(x.at(*i)) == zr(y.at(*i))), dtype='bool'), False))


@both('isscalar')
def np_isscalar(eng, a, kw, flavor):
    return is_scalar(eng.force(a[0]))


@both('size')
def np_size(eng, a, kw, flavor):
    v = eng.force(a[0])
    return 1 if is_scalar(v) else arr_attr(eng, v, to_arr(eng, v), 'size', True)


@both('shape')
def np_shape(eng, a, kw, flavor):
    v = eng.force(a[0])
    return () if is_scalar(v) else tuple(to_arr(eng, v).shape)


@both('ndim')
def np_ndim(eng, a, kw, flavor):
    v = eng.force(a[0])
    return 0 if is_scalar(v) else to_arr(eng, v).ndim


ARGSORT = z3.Function('argsort', I, VEC, z3.ArraySort(I, I))


@both('argsort')
def np_argsort(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    assumed(eng, 'numpy/jax.numpy.argsort: returns the stable ascending sorting permutation')
    t = ARGSORT(zi(x.shape[0]), x.as_term())
    r = Arr(x.shape, lambda k: z3.Select(t, zi(k)))
    r.meta = ('argsort', x)
    return wrap(eng, r, flavor)


def flat_uf(name, mats, shape):
    """matrix-valued uninterpreted function of the entries of matrices of known size"""
    args = []
    dims = []
    for m in mats:
        r, c = simp(m.shape[0]), simp(m.shape[1])
        if not (isinstance(r, int) and isinstance(c, int)):
            raise Unsupported(f"{name} of a matrix of symbolic size")
        dims += [r, c]
        args += [z3.simplify(zr(m.at(i, k)), som=True) for i in range(r) for k in range(c)]
    tag = name + '_' + '_'.join(map(str, dims))
    vals = [[z3.Function(f'{tag}_{i}_{k}', *([R] * (len(args) + 1)))(*args) for k in range(shape[1])] for i in range(shape[0])]

    def at(i, k):
        i, k = simp(i), simp(k)
        if isinstance(i, int) and isinstance(k, int):
            return vals[i][k]
        r = None
        for a_ in range(shape[0]):
            for b_ in range(shape[1]):
                r = vals[a_][b_] if r is None else site(z3.And(zi(i) == a_, zi(k) == b_), vals[a_][b_], r)
        return r

    return Arr(tuple(shape), at)


@both('linalg.inv')
def np_inv(eng, a, kw, flavor):
    x = to_arr(eng, a[0])
    assumed(eng, 'linalg.inv: an uninterpreted function of the matrix entries (matrix inverse)')
    return wrap(eng, flat_uf('matinv', [x], [simp(d) for d in x.shape]), flavor)


@reg('scipy.linalg.solve_continuous_are')
def _are(eng, a, kw):
    assumed(eng, 'scipy.linalg.solve_continuous_are: an uninterpreted function of the entries of (A,B,Q,R)')
    ms = [to_arr(eng, x) for x in a[:4]]
    if kw or len(a) != 4:
        raise Unsupported('solve_continuous_are options')
    return wrap(eng, flat_uf('care', ms, [simp(d) for d in ms[0].shape]), 'np')


@reg('scipy.linalg.block_diag')
def _bdiag(eng, a, kw):
    assumed(eng, 'scipy.linalg.block_diag: block-diagonal matrix of its arguments')
    mats = [to_arr(eng, x) for x in a]
    n = 0
    m = 0
    offs = []
    for x in mats:
        offs.append((n, m))
        n, m = sadd(n, x.shape[0]), sadd(m, x.shape[1])

    def fn(i, j):
        r = 0
        for (oi, oj), x in zip(offs, mats):
            c = simp(z3.And(zi(i) >= zi(oi), zi(i) < zi(oi) + zi(x.shape[0]), zi(j) >= zi(oj), zi(j) < zi(oj) + zi(x.shape[1])))
            if c is False:
                continue
            v = x.at(ssub(i, oi), ssub(j, oj))
            r = v if c is True else site(c, v, r)
        return r

    return wrap(eng, Arr((n, m), fn), 'np')


# ------------------------------------------------------------------------------------ jax transforms


@reg('jax.jit')
def _jit(eng, a, kw):
    if not a:
        return Native('jit', lambda e, aa, k: JitFn(aa[0]))
    assumed(eng, 'jax.jit: a compiled function equals its Python body on traced arguments; attributes of objects read inside the body keep '
                 'the value they had when it was first traced')
    return JitFn(a[0])


@reg('jax.vmap')
def _vmap(eng, a, kw):
    assumed(eng, 'jax.vmap: maps the function over the leading axis of the mapped arguments')
    return VmapFn(a[0], kw.get('in_axes', a[1] if len(a) > 1 else 0), kw.get('out_axes', a[2] if len(a) > 2 else 0))


@reg('jax.grad')
def _grad(eng, a, kw):
    assumed(eng, 'jax.grad/jacfwd/jacrev: exact derivative with respect to the first argument')
    if kw.get('argnums', 0) != 0 or len(a) > 1:
        raise Unsupported("grad argnums")
    return GradFn(a[0], 'grad', bool(kw.get('has_aux', False)))


@reg('jax.jacfwd', 'jax.jacrev', 'jax.jacobian')
def _jac(eng, a, kw):
    assumed(eng, 'jax.grad/jacfwd/jacrev: exact derivative with respect to the first argument')
    if kw.get('argnums', 0) != 0 or len(a) > 1:
        raise Unsupported("jac argnums")
    return GradFn(a[0], 'jac', bool(kw.get('has_aux', False)))


@reg('jax.lax.cond')
def _cond(eng, a, kw):
    assumed(eng, 'jax.lax.cond: selects one of two branches')
    p = eng.truth(a[0])
    ops = a[3:]
    if 'operand' in kw:
        ops = [kw['operand']]
    return eng.branch2(p, lambda: np_to_jnp(eng, eng.call(a[1], ops, {})), lambda: np_to_jnp(eng, eng.call(a[2], ops, {})))


@reg('jax.lax.stop_gradient')
def _sg(eng, a, kw):
    return a[0]


@reg('jax.config.update')
def _cfg(eng, a, kw):
    return None


def _sk(eng, base, sort):
    from .loops import skolem
    return skolem(eng, base, sort)


def call_vmap(eng, f, args, kwargs):
    axes = f.in_axes
    if not isinstance(axes, tuple):
        axes = tuple([axes] * len(args))
    if len(axes) != len(args):
        raise perr('ValueError', 'vmap in_axes length mismatch')
    n = None
    t = fresh('vt', I)
    margs = []
    for ax, x in zip(axes, args):
        if ax is None:
            margs.append(x)
            continue
        if ax != 0:
            raise Unsupported("vmap axis")
        a = to_arr(eng, x)
        n = a.shape[0] if n is None else n
        margs.append(a)
    if n is None:
        raise perr('ValueError', 'vmap needs a mapped argument')
    n = simp(n)
    if isinstance(n, int):
        res = []
        for k in range(n):
            res.append(np_to_jnp(eng, eng.call(f.inner, [m if ax is None else _rw(m.row(k)) for ax, m in zip(axes, margs)], kwargs)))
        if res and isinstance(res[0], tuple):
            return tuple(stack_segs(eng, [ListSeg(r[j]) for r in res]).with_kind('jnp') for j in range(len(res[0])))
        return stack_segs(eng, [ListSeg(r) for r in res]).with_kind('jnp')
    st0 = eng.st
    eng.assume(z3.And(t >= 0, t < zi(n)))
    mark = len(eng.st.pc)
    gi = eng.st.ghost.get('index_vars', ())
    nv = eng.st.ghost.get('nest_vars', ())
    eng.st.ghost['index_vars'] = gi + (t, )
    eng.st.ghost['nest_vars'] = nv + (t, )
    r = np_to_jnp(eng, eng.call(f.inner, [m if ax is None else _rw(m.row(t)) for ax, m in zip(axes, margs)], kwargs))
    eng.st.ghost['index_vars'] = gi
    eng.st.ghost['nest_vars'] = nv
    if any(k != 'fact' and contains_var(e, t) for k, e in eng.st.pc[mark:]):
        raise Unsupported("branch on the mapped index in vmap")
    # drop facts about the bound index
    eng.st.pc = [(k, e) for k, e in eng.st.pc if not contains_var(e, t)]

    def up(v):
        v = np_to_jnp(eng, eng.force(v))
        if is_scalar(v):
            return Arr((n, ), lambda k: subst(v, [(t, zi(k))]) if is_z3(v) else v)
        if isinstance(v, Arr):
            return Arr((n, ) + v.shape, lambda k, *idx: subst(v, [(t, zi(k))]).at(*idx), rowfn=lambda k: subst(v, [(t, zi(k))]))
        raise Unsupported("vmap result")

    if isinstance(r, tuple):
        return tuple(up(x) for x in r)
    return up(r)


def _rw(x):
    return x.with_kind('jnp') if isinstance(x, Arr) else x


def call_grad(eng, f, args, kwargs):
    """derivative of f.inner wrt its first argument at args[0], computed on the symbolic result term"""
    from .deriv import gradient
    return gradient(eng, f, args, kwargs)
