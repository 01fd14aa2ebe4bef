"""Symbolic values of the pyver verifier (Python AST symbolic executor / VC generator).

Floats are modelled as mathematical reals (stated assumption), ints as mathematical integers (which
Python ints are).  Arrays are total functions from indices to reals with a (possibly symbolic) shape."""
from __future__ import annotations
import itertools
from fractions import Fraction
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
VEC = z3.ArraySort(I, R)
MAT = z3.ArraySort(I, I, R)

class Counter:
    """name/id supply that can be rewound while a path prefix is replayed, and never reuses numbers on new ground"""

    def __init__(self, start=0):
        self.n = self.hi = start

    def __next__(self):
        v = self.n
        self.n += 1
        if self.n > self.hi:
            self.hi = self.n
        return v


_counter = Counter()
_ids = Counter(1)


def counters():
    return (_counter.n, _ids.n)


def set_counters(c=None):
    _counter.n, _ids.n = c if c is not None else (_counter.hi, _ids.hi)


def fresh_name(base):
    return f"{base}!{next(_counter)}"


def fresh(base, sort):
    return z3.Const(fresh_name(base), sort)


class Unsupported(Exception):
    """construct outside the verified subset"""


class PyRaise(Exception):
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)


def is_scalar(v):
    return isinstance(v, (bool, int, Fraction, float)) or is_z3(v)


def is_concrete(v):
    return isinstance(v, (bool, int, Fraction, float, str)) or v is None


def is_inf(v):
    return isinstance(v, float) and v in (float('inf'), float('-inf'))


def zr(v):
    """to z3 Real"""
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if v != v or is_inf(v):
            raise Unsupported(f"non-finite real {v}")
        return z3.RealVal(str(Fraction(repr(v))))
    if is_z3(v):
        s = v.sort()
        if s == R:
            return v
        if s == I:
            return z3.ToReal(v)
        if s == B:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"cannot convert to real: {v!r}")


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return z3.IntVal(int(v))
    if is_z3(v):
        if v.sort() == I:
            return v
        if v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"cannot convert to int: {v!r}")


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_num(v):
        return z3.BoolVal(v != 0)
    if is_z3(v):
        if v.sort() == B:
            return v
        if v.sort() in (I, R):
            return v != 0
    raise Unsupported(f"cannot convert to bool: {v!r}")


def lit(v):
    """simplify z3 literals back to python values"""
    if is_z3(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    if is_z3(v):
        return lit(z3.simplify(v))
    return v


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and v.sort() == I)


def same(a, b):
    """syntactic equality of two scalar terms"""
    if is_z3(a) and is_z3(b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        return z3.simplify(a).eq(z3.simplify(b))
    if is_z3(a) or is_z3(b):
        a, b = simp(a), simp(b)
        if is_z3(a) or is_z3(b):
            return False
    return type(a) in (int, Fraction, bool) and type(b) in (int, Fraction, bool) and a == b or a is b


def sadd(a, b):
    if is_z3(a) or is_z3(b):
        if isint(a) and isint(b):
            return simp(zi(a) + zi(b))
        return lit(zr(a) + zr(b))
    return a + b


def ssub(a, b):
    if is_z3(a) or is_z3(b):
        if isint(a) and isint(b):
            return simp(zi(a) - zi(b))
        return lit(zr(a) - zr(b))
    return a - b


def smul(a, b):
    if is_concrete(a) and is_num(a) and a == 0 and not is_inf(b):
        return 0
    if is_concrete(b) and is_num(b) and b == 0 and not is_inf(a):
        return 0
    if is_concrete(a) and is_num(a) and a == 1:
        return b
    if is_concrete(b) and is_num(b) and b == 1:
        return a
    if is_z3(a) or is_z3(b):
        if isint(a) and isint(b):
            return simp(zi(a) * zi(b))
        return lit(zr(a) * zr(b))
    return a * b


def site(c, a, b):
    """scalar if-then-else"""
    if isinstance(c, bool):
        return a if c else b
    if is_z3(c):
        c2 = simp(c)
        if isinstance(c2, bool):
            return a if c2 else b
    if same(a, b):
        return a
    if is_inf(a) or is_inf(b):
        raise Unsupported("ite with inf")
    ab = isinstance(a, bool) or (is_z3(a) and a.sort() == B)
    bb = isinstance(b, bool) or (is_z3(b) and b.sort() == B)
    if ab and bb:
        return lit(z3.If(c, zb(a), zb(b)))
    if isint(a) and isint(b):
        return z3.If(c, zi(a), zi(b))
    return z3.If(c, zr(a), zr(b))


# --------------------------------------------------------------------------------- structured values


class Arr:
    """immutable array value. fn(*idx) -> scalar.  kind: 'jnp' | 'np' (np arrays live behind a Ref)."""

    def __init__(self, shape, fn=None, term=None, kind='jnp', segs=None, rowfn=None, meta=None, dtype='real'):
        self.shape = tuple(shape)
        self._fn = fn
        self.term = term
        self.kind = kind
        self.segs = segs      # (axis, [Seg])
        self.rowfn = rowfn    # t -> Arr (ndim-1)
        self.meta = meta      # ('write', base, region, valfn) | ('carry', id)
        self.dtype = dtype
        self._cache_term = None

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        assert len(idx) == len(self.shape), (idx, self.shape)
        if self.term is not None:
            return lit(z3.simplify(z3.Select(self.term, *[zi(k) for k in idx])))
        return self._fn(*idx)

    def with_kind(self, kind):
        a = Arr(self.shape, self._fn, self.term, kind, self.segs, self.rowfn, self.meta, self.dtype)
        a._cache_term = self._cache_term
        return a

    def concrete_shape(self):
        return all(isinstance(s, int) for s in self.shape)

    def row(self, t):
        if self.rowfn is not None:
            return self.rowfn(t)
        if self.ndim == 1:
            return self.at(t)
        return Arr(self.shape[1:], lambda *idx: self.at(t, *idx), kind=self.kind, dtype=self.dtype)

    def as_term(self):
        """array-sorted z3 term of the elements"""
        if self.term is not None:
            return self.term
        if self._cache_term is None:
            n = len(self.shape)
            if n == 0:
                raise Unsupported("0-d array term")
            if n > 2:
                raise Unsupported("array term with ndim > 2")
            with bvars(n) as vs:
                m = self.shape[0]
                if n == 1 and isinstance(m, int) and 0 < m <= 16:
                    # canonical element-wise form
                    es = [zr(self.at(k)) for k in range(m)]
                    body = es[-1]
                    for k in range(m - 2, -1, -1):
                        body = z3.If(vs[0] == k, es[k], body)
                else:
                    body = zr(self.at(*vs))
            rng = z3.And(*[z3.And(v >= 0, v < zi(s)) for v, s in zip(vs, self.shape)])
            body = z3.simplify(z3.If(rng, body, z3.RealVal(0)), som=True)
            self._cache_term = bind('%k', vs, body)
        return self._cache_term

    def __repr__(self):
        return f"Arr{self.shape}[{self.kind}]"


class bvars:
    """integer variables that no enclosing evaluation is using (named by nesting depth, so that terms stay comparable)"""
    depth = 0

    def __init__(self, n=1):
        self.n = n

    def __enter__(self):
        bvars.depth += 1
        return [z3.Int(f"%{bvars.depth}.{j}") for j in range(self.n)]

    def __exit__(self, *a):
        bvars.depth -= 1


def bind(name, vs, body):
    """lambda over vs with canonical binder names; the canonical constants never occur free"""
    can = [z3.Int(f"{name}{j}") for j in range(len(vs))]
    body = z3.simplify(z3.substitute(body, *[(v, c) for v, c in zip(vs, can)]), som=True)
    return z3.Lambda(can, body)


class Seg:
    """one segment of a segmented array along an axis: plain Arr, or a family of blocks"""

    def __init__(self, arr, n=None, ivar=None):
        self.arr = arr
        self.n = n
        self.ivar = ivar

    @property
    def fam(self):
        return self.n is not None


class Ref:
    __slots__ = ('id', )

    def __init__(self, id_):
        self.id = id_

    def __repr__(self):
        return f"Ref({self.id})"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class FamRef:
    """idx-th element of a symbolic family of heap cells"""

    def __init__(self, fid, idx):
        self.fid = fid
        self.idx = idx

    def __repr__(self):
        return f"Fam({self.fid},{self.idx})"


class Opaque:
    """opaque immutable value of an uninterpreted sort (pyt: names for isinstance)"""

    def __init__(self, term, pyt=()):
        self.term = term
        self.pyt = tuple(pyt)

    def __repr__(self):
        return f"Opaque({self.term})"


class SymStr:
    """string built from literal parts and symbolic parts; keys of families are SymStr((KEYTERM,))"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out += list(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not isinstance(p, str) or p != '':
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f"SymStr{self.parts}"


class KeyPart:
    """name of the idx-th member of a key family (names are pairwise distinct)"""

    def __init__(self, fam, idx):
        self.fam = fam
        self.idx = idx

    def __repr__(self):
        return f"key[{self.fam},{self.idx}]"


def same_key(a, b):
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return len(a.parts) == len(b.parts) and all(same_key(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, KeyPart) and isinstance(b, KeyPart):
        return a.fam == b.fam and same(a.idx, b.idx)
    if is_z3(a) or is_z3(b):
        return is_z3(a) and is_z3(b) and a.eq(b)
    return type(a) is type(b) and a == b


class UVal:
    """guarded union: [(cond, value)], conditions exclusive and exhaustive on the current path"""

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return f"UVal({[(str(c)[:40], v) for c, v in self.cases]})"


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class FuncVal:
    def __init__(self, node, module, env=None, cls=None, name=None, defaults=None, kw_defaults=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = defaults
        self.kw_defaults = kw_defaults

    def __repr__(self):
        return f"Func({self.module.name if self.module else ''}.{self.cls.name + '.' if self.cls else ''}{self.name})"


class BoundMethod:
    def __init__(self, recv, func):
        self.recv, self.func = recv, func

    def __repr__(self):
        return f"Bound({self.recv},{self.func})"


class Native:
    """python-implemented function: fn(eng, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"Native({self.name})"


class JitFn:
    def __init__(self, inner):
        self.inner = inner


class VmapFn:
    def __init__(self, inner, in_axes=0, out_axes=0):
        self.inner, self.in_axes, self.out_axes = inner, in_axes, out_axes


class GradFn:
    def __init__(self, inner, kind='grad', has_aux=False):
        self.inner, self.kind, self.has_aux = inner, kind, has_aux


class PartialFn:
    def __init__(self, inner, args, kwargs):
        self.inner, self.args, self.kwargs = inner, args, kwargs


class Ext:
    """external (third-party / stdlib) entity named by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('Ext', self.path))


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args
        self.cause = None

    def __repr__(self):
        c = self.cls.name if hasattr(self.cls, 'name') else self.cls.path
        return f"{c}({', '.join(map(str, self.args))})"


class AtProxy:
    def __init__(self, arr, key=None):
        self.arr, self.key = arr, key


class SuperProxy:
    def __init__(self, recv, after, cls_only=False):
        self.recv, self.after = recv, after


class IterPart:
    """n == None: concrete list of items; else symbolic: item(i) for 0 <= i < n (n may be 'inf')"""

    def __init__(self, items=None, n=None, item=None):
        self.items, self.n, self.item = items, n, item


class IterVal:
    """lazily evaluated iterable (range/zip/enumerate/dict views/...)"""

    def __init__(self, parts):
        self.parts = parts


class PropertyVal:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


# ---- heap cells -----------------------------------------------------------------------------------


class ObjCell:
    kind = 'obj'

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def copy(self):
        return ObjCell(self.cls, dict(self.fields))


class ListSeg:
    """One value, or a family of n values template[ivar]; template None = unknown (mid-loop)"""

    def __init__(self, val, n=None, ivar=None):
        self.val, self.n, self.ivar = val, n, ivar

    @property
    def fam(self):
        return self.n is not None


UNKNOWN = object()


class ListCell:
    kind = 'list'

    def __init__(self, segs):
        self.segs = list(segs)

    def copy(self):
        c = ListCell(self.segs)
        if getattr(self, 'havoc', False):
            c.havoc = True
        return c


def havoc_list():
    n = fresh('havoclen', I)
    c = ListCell([ListSeg(UNKNOWN, z3.If(n < 0, 0, n), fresh('hv', I))])
    c.havoc = True
    return c


class DictSeg:
    def __init__(self, key, val, n=None, ivar=None, famkey=None):
        self.key, self.val, self.n, self.ivar = key, val, n, ivar
        self.famkey = famkey  # key family name when fam

    @property
    def fam(self):
        return self.n is not None


class DictCell:
    kind = 'dict'

    def __init__(self, segs, missing=None, overlays=()):
        self.segs = list(segs)
        self.missing = missing
        self.overlays = list(overlays)  # [(famkey, idx, val)] point updates (latest last)

    def copy(self):
        return DictCell(self.segs, self.missing, self.overlays)


class NpCell:
    kind = 'np'

    def __init__(self, arr, view_of=None):
        self.arr = arr
        self.view_of = view_of

    def copy(self):
        return NpCell(self.arr, self.view_of)


class SetCell:
    kind = 'set'

    def __init__(self, items):
        self.items = list(items)

    def copy(self):
        return SetCell(self.items)


class FamCell:
    """family of heap cells: idx -> cell.  For objects: cls, fields[attr] = template over ivar."""

    def __init__(self, name, kind, n, ivar, cls=None, fields=None, content=None, hooks=None, volatile=()):
        self.name, self.kind, self.n, self.ivar = name, kind, n, ivar
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.content = content          # cell template for list/dict/np
        self.hooks = hooks or {}        # name -> fn(eng, idx, args, kwargs)
        self.volatile = set(volatile)
        self.over = []                  # [(idx, attr or None, value)]

    def copy(self):
        c = FamCell(self.name, self.kind, self.n, self.ivar, self.cls, dict(self.fields), self.content, self.hooks, self.volatile)
        c.over = list(self.over)
        return c


# ---- substitution ---------------------------------------------------------------------------------


def subst(v, pairs):
    if not pairs:
        return v
    if v is None or isinstance(v, (bool, int, Fraction, float, str, Ref, Ext, Native)) or v is UNKNOWN:
        return v
    if is_z3(v):
        return lit(z3.substitute(v, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, Arr):
        shape = tuple(subst(s, pairs) for s in v.shape)
        term = None if v.term is None else z3.substitute(v.term, *pairs)
        segs = None
        if v.segs is not None:
            segs = (v.segs[0], [Seg(subst(s.arr, pairs), subst(s.n, pairs) if s.fam else None, s.ivar) for s in v.segs[1]])
        rowfn = None
        if v.rowfn is not None:
            rowfn = _subst_rowfn(v, pairs)
        fn = _subst_fn(v, pairs)
        return Arr(shape, fn, term, v.kind, segs, rowfn, None, v.dtype)
    if isinstance(v, FamRef):
        return FamRef(v.fid, subst(v.idx, pairs))
    if isinstance(v, Opaque):
        return Opaque(z3.substitute(v.term, *pairs), v.pyt)
    if isinstance(v, SymStr):
        return SymStr([subst(p, pairs) for p in v.parts])
    if isinstance(v, KeyPart):
        return KeyPart(v.fam, subst(v.idx, pairs))
    if isinstance(v, UVal):
        return UVal([(subst(c, pairs), subst(x, pairs)) for c, x in v.cases])
    if isinstance(v, BoundMethod):
        return BoundMethod(subst(v.recv, pairs), v.func)
    if isinstance(v, JitFn):
        return JitFn(subst(v.inner, pairs))
    if isinstance(v, VmapFn):
        return VmapFn(subst(v.inner, pairs), v.in_axes, v.out_axes)
    if isinstance(v, GradFn):
        return GradFn(subst(v.inner, pairs), v.kind, v.has_aux)
    if isinstance(v, PartialFn):
        return PartialFn(subst(v.inner, pairs), subst(v.args, pairs), {k: subst(x, pairs) for k, x in v.kwargs.items()})
    if isinstance(v, SliceV):
        return SliceV(subst(v.lo, pairs), subst(v.hi, pairs), subst(v.step, pairs))
    if isinstance(v, (ListCell)):
        return ListCell([_cp(s, ListSeg(subst(s.val, pairs), subst(s.n, pairs) if s.fam else None, s.ivar), pairs) for s in v.segs])
    if isinstance(v, DictCell):
        return DictCell([_cp(s, DictSeg(subst(s.key, pairs), subst(s.val, pairs), subst(s.n, pairs) if s.fam else None, s.ivar, s.famkey), pairs)
                         for s in v.segs], v.missing, [(f, subst(i, pairs), subst(x, pairs)) for f, i, x in v.overlays])
    if isinstance(v, NpCell):
        return NpCell(subst(v.arr, pairs), v.view_of)
    if isinstance(v, FuncVal):
        return v
    if hasattr(v, 'is_class'):
        return v
    if isinstance(v, IterVal):
        return v
    raise Unsupported(f"subst on {type(v).__name__}")


def _cp(old, new, pairs):
    if getattr(old, 'filt', None) is not None:
        new.filt = old.filt
    if getattr(old, 'opt', None) is not None:
        new.opt = z3.substitute(old.opt, *pairs)
    return new


def _subst_fn(v, pairs):
    # index arguments may mention substituted variables: protect them by fresh placeholders
    def fn(*idx):
        ph = []
        args = []
        for k in idx:
            if is_z3(k) and not z3.is_int_value(k):
                p = fresh('ph', I)
                ph.append((p, k))
                args.append(p)
            else:
                args.append(k)
        r = v.at(*args)
        r = subst(r, pairs)
        if ph and is_z3(r):
            r = lit(z3.substitute(r, *ph))
        return r

    return fn


def _subst_rowfn(v, pairs):
    def fn(t):
        if is_z3(t) and not z3.is_int_value(t):
            p = fresh('ph', I)
            r = subst(v.rowfn(p), pairs)
            return subst(r, [(p, t)])
        return subst(v.rowfn(t), pairs)

    return fn
