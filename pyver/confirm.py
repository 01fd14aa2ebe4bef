"""Numerical confirmation of counterexamples that rest on incompletely axiomatised functions (sin, cos, exp, inverse ...).

A z3 model may interpret them in a way no real function does; a refutation only counts when a valuation under the true functions satisfies the
hypotheses and falsifies the goal by a clear margin."""
from __future__ import annotations
import hashlib
import math
import random
import time
import z3

FUN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'exp': math.exp, 'log': math.log,
       'sqrt': math.sqrt, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'arctan2': math.atan2, 'pow': lambda a, b: a**b, 'round': lambda a: float(round(a)),
       'floor': math.floor, 'ceil': math.ceil, 'cbrt': lambda a: math.copysign(abs(a)**(1 / 3), a)}
INCOMPLETE = set(FUN) - {'sqrt'} | {'matinv', 'care', 'argsort'}


class NoEval(Exception):
    pass


class Close(Exception):
    """a comparison too close to call in floating point"""


def h01(key):
    return int.from_bytes(hashlib.blake2b(key.encode(), digest_size=7).digest(), 'big') / 2.0**56


class Valuation:
    def __init__(self, seed, model=None):
        self.seed, self.model = seed, model
        self.memo = {}
        self.rng = random.Random(seed)
        self.scale = self.rng.choice([0.5, 1.0, 2.0, 5.0])
        self.use_model = model is not None and seed % 2 == 0

    def base(self, key, sort, decl=None):
        if self.use_model and decl is not None:
            try:
                v = self.model.eval(decl, model_completion=False)
                v = num(v)
                if v is not None:
                    return v
            except z3.Z3Exception:
                pass
        r = h01(f'{self.seed}|{key}')
        if sort == z3.RealSort():
            return (2 * r - 1) * self.scale if h01(f'{self.seed}s{key}') < 0.5 else r * self.scale
        if sort == z3.IntSort():
            return int(r * 6)
        if sort == z3.BoolSort():
            return r < 0.5
        return ('$', key)

    def ev(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        v = self._ev(t)
        self.memo[k] = v
        return v

    def _ev(self, t):
        if z3.is_quantifier(t) or z3.is_var(t):
            raise NoEval('quantifier')
        d = t.decl()
        kd = d.kind()
        K = z3
        ch = t.children()
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return num(t)
        if z3.is_algebraic_value(t):
            return num(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if kd == K.Z3_OP_AND:
            return all_(self, ch, True)
        if kd == K.Z3_OP_OR:
            return not all_(self, ch, False)
        if kd == K.Z3_OP_IMPLIES:
            return (not self.ev(ch[0])) or self.ev(ch[1])
        if kd == K.Z3_OP_ITE:
            return self.ev(ch[1] if self.ev(ch[0]) else ch[2])
        if kd == K.Z3_OP_UNINTERPRETED and not ch:
            return math.pi if d.name() == 'pi' else self.base(d.name(), t.sort(), t)
        a = [self.ev(c) for c in ch]
        if kd == K.Z3_OP_NOT:
            return not a[0]
        if kd == K.Z3_OP_XOR:
            return a[0] != a[1]
        if kd == K.Z3_OP_ADD:
            return sum(a)
        if kd == K.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if kd == K.Z3_OP_UMINUS:
            return -a[0]
        if kd == K.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r * x
            return r
        if kd == K.Z3_OP_DIV:
            if a[1] == 0:
                raise NoEval('div')
            return a[0] / a[1]
        if kd == K.Z3_OP_IDIV:
            if a[1] <= 0:
                raise NoEval('div')
            return a[0] // a[1]
        if kd == K.Z3_OP_MOD:
            if a[1] <= 0:
                raise NoEval('div')
            return a[0] % a[1]
        if kd == K.Z3_OP_TO_REAL:
            return float(a[0])
        if kd == K.Z3_OP_TO_INT:
            return math.floor(a[0])
        if kd == K.Z3_OP_POWER:
            return a[0]**a[1]
        if kd in (K.Z3_OP_LE, K.Z3_OP_LT, K.Z3_OP_GE, K.Z3_OP_GT):
            close(a)
            return {K.Z3_OP_LE: a[0] <= a[1], K.Z3_OP_LT: a[0] < a[1], K.Z3_OP_GE: a[0] >= a[1], K.Z3_OP_GT: a[0] > a[1]}[kd]
        if kd == K.Z3_OP_EQ:
            if isinstance(a[0], float) or isinstance(a[1], float):
                s = max(abs(a[0]), abs(a[1]), 1.0)
                if abs(a[0] - a[1]) <= 1e-9 * s:
                    return True
                if abs(a[0] - a[1]) <= 1e-5 * s:
                    raise Close()
                return False
            return a[0] == a[1]
        if kd == K.Z3_OP_DISTINCT:
            if len(a) != 2:
                raise NoEval('distinct')
            return not self._eqv(a)
        if kd == K.Z3_OP_SELECT:
            return self.base(f'sel|{a!r}', t.sort()) if isinstance(a[0], tuple) else (_ for _ in ()).throw(NoEval('select'))
        if kd == K.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if nm in FUN:
                return float(FUN[nm](*a))
            if nm.startswith('LINSTEP_'):
                return linstep(nm, a)
            if nm.startswith(('matinv_', 'care_')):
                return matfun(nm, a)
            if nm in ('matinv', 'care', 'argsort', 'SUM', 'MINV', 'MAXV') or nm.startswith(('REC', 'PS', 'SEL', 'FLOW_', 'LINDOT_')):
                raise NoEval(nm)
            return self.base(f'{nm}|{a!r}', t.sort())
        raise NoEval(d.name())

    def _eqv(self, a):
        if isinstance(a[0], float) or isinstance(a[1], float):
            close(a)
        return a[0] == a[1]


def linstep(nm, a):
    import numpy as np
    from scipy.linalg import expm
    n, m, k = [int(q) for q in nm.split('_')[1:]]
    a = [float(q) for q in a]
    A, Bm, dt = np.array(a[:n * n]).reshape(n, n), np.array(a[n * n:n * n + n * m]).reshape(n, m), a[n * n + n * m]
    x, u = np.array(a[n * n + n * m + 1:n * n + n * m + 1 + n]), np.array(a[n * n + n * m + 1 + n:])
    M = np.zeros((n + 1, n + 1))
    M[:n, :n], M[:n, n] = A, Bm @ u
    return float((expm(M * dt) @ np.append(x, 1.0))[k])


MEMO = {}


def matfun(nm, a):
    import numpy as np
    from scipy.linalg import solve_continuous_are
    fn, *d = nm.split('_')
    d = [int(q) for q in d]
    i, k, d = d[-2], d[-1], d[:-2]
    a = [float(q) for q in a]
    key = (fn, tuple(d), tuple(a))
    if key not in MEMO:
        if len(MEMO) > 2000:
            MEMO.clear()
        ms, o = [], 0
        for r, c in zip(d[::2], d[1::2]):
            ms.append(np.array(a[o:o + r * c]).reshape(r, c))
            o += r * c
        try:
            MEMO[key] = np.linalg.inv(ms[0]) if fn == 'matinv' else solve_continuous_are(*ms)
        except (np.linalg.LinAlgError, ValueError):
            MEMO[key] = None
    if MEMO[key] is None:
        raise ValueError(nm)
    return float(MEMO[key][i, k])


def all_(v, ch, pol):
    """conjunction with short circuit; an undecidable conjunct only matters when no other settles it"""
    pend = None
    for c in ch:
        try:
            if bool(v.ev(c)) != pol:
                return False
        except (Close, NoEval, ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
            pend = e
    if pend is not None:
        raise pend
    return True


def close(a):
    if isinstance(a[0], float) or isinstance(a[1], float):
        s = max(abs(a[0]), abs(a[1]), 1.0)
        if abs(a[0] - a[1]) <= 1e-9 * s and a[0] != a[1]:
            raise Close()


def num(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return float(t.numerator_as_long()) / float(t.denominator_as_long())
    if z3.is_algebraic_value(t):
        q = t.approx(20)
        return float(q.numerator_as_long()) / float(q.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def names(es):
    seen, st, out = set(), list(es), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def needs(goal, hyps):
    return any(n in INCOMPLETE or n.startswith(('FLOW_', 'LINSTEP_', 'LINDOT_', 'matinv_', 'care_')) for n in names([goal]))


def confirm(hyps, goal, model=None, tries=4000, limit=15.0):
    """True when some valuation under the true functions satisfies hyps and clearly falsifies goal"""
    t0 = time.time()
    g = z3.simplify(goal)
    hs = [z3.simplify(h) for h in hyps]
    for s in range(tries):
        if time.time() - t0 > limit:
            return False
        v = Valuation(s, model)
        try:
            if all(v.ev(h) for h in hs) and not v.ev(g):
                return True
        except (Close, ValueError, OverflowError, ZeroDivisionError, TypeError):
            continue
        except NoEval:
            return False
    return False
