"""Normal form for real terms with finite sums: sums of products, nested finite sums exchanged and distributed (linearity and Fubini for finite sums),
conditions decided under the hypotheses, remaining closed conditions split on.  Decides equalities such as associativity of matrix products of unknown size."""
from __future__ import annotations
import itertools
import re
import time
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class RangeCut(Exception):
    def __init__(self, n, m):
        self.n, self.m = n, m


class GiveUp(Exception):
    pass


def _subterms(es):
    seen = {}
    st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return seen.values()


_FREE, _HQ = {}, {}


def _free(t):
    """1 + the greatest free de Bruijn index (0: closed)"""
    if len(_FREE) > 300000:
        _FREE.clear()
    k = t.get_id()
    m = _FREE.get(k)
    if m is not None:
        return m[1]
    if z3.is_var(t):
        r = z3.get_var_index(t) + 1
    elif z3.is_quantifier(t):
        r = max(0, _free(t.body()) - t.num_vars())
    else:
        r = max([_free(c) for c in t.children()], default=0)
    _FREE[k] = (t, r)
    return r


def loose(t):
    """free de Bruijn variables"""
    return _free(t) > 0


def has_q(t):
    if len(_HQ) > 300000:
        _HQ.clear()
    k = t.get_id()
    m = _HQ.get(k)
    if m is not None:
        return m[1]
    r = z3.is_quantifier(t) or any(has_q(c) for c in t.children())
    _HQ[k] = (t, r)
    return r


def _bound_name(nm):
    return nm.startswith('%v!') or nm.startswith('%L!')


class Norm:
    LIMIT = 6000

    def __init__(self, hyps, deadline=None, cuts=None):
        self.cuts = cuts            # None: sums are not cut; else [(range, threshold)]
        self.active = []
        self.sqrts = {}
        self.quant = [h for h in hyps if has_q(h)]
        self.hyps = [h for h in hyps if not has_q(h)]
        self.deadline = deadline
        self.dmemo = {}
        self.ctr = 0
        self.depth = 0
        self.facts = []
        self.keep = []
        self.kron = {}
        self.base = self.hyps + self.int_facts(self.hyps)

    # -------------------------------------------------------------- oracle
    def nonneg_forms(self, es):
        out = []
        for e in es:
            st = [e]
            while st:
                x = st.pop()
                if z3.is_and(x):
                    st += x.children()
                    continue
                neg = z3.is_not(x)
                if neg:
                    x = x.arg(0)
                if not z3.is_app(x) or x.num_args() != 2 or x.arg(0).sort() != I:
                    continue
                k = x.decl().kind()
                a, b = x.arg(0), x.arg(1)
                if neg:
                    k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
                f = {z3.Z3_OP_LE: lambda: b - a, z3.Z3_OP_GE: lambda: a - b, z3.Z3_OP_LT: lambda: b - a - 1, z3.Z3_OP_GT: lambda: a - b - 1}.get(k)
                if f:
                    out.append(z3.simplify(f()))
        return out

    def int_facts(self, es):
        """products of non-negative integer forms; floors of non-negative quotients"""
        out = []
        fl = [t for t in _subterms(es) if z3.is_app_of(t, z3.Z3_OP_TO_INT) and not loose(t)]
        nn = self.nonneg_forms(es)
        for t in fl:
            a = t.arg(0)
            if z3.is_app_of(a, z3.Z3_OP_DIV):
                s = z3.Solver()
                s.set('timeout', 300)
                s.add(*[h for h in self.hyps])
                s.add(z3.Not(z3.And(a.arg(0) >= 0, a.arg(1) > 0)))
                if s.check() == z3.unsat:
                    out.append(t >= 0)
                    nn.append(t)
        if fl:
            nn = nn[:9]
            for x, y in itertools.combinations(nn, 2):
                out.append(z3.simplify(x * y, som=True) >= 0)
        return out

    def decide(self, c):
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time')
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if loose(c) or has_q(c):
            return None
        key = (c.get_id(), tuple(f.get_id() for f in self.facts))
        if key in self.dmemo:
            return self.dmemo[key]
        self.keep.append(c)
        r = None
        for v, q in ((True, z3.Not(c)), (False, c)):
            s = z3.Solver()
            s.set('timeout', 250)
            s.add(*self.base)
            s.add(*self.facts)
            s.add(q)
            if s.check() == z3.unsat:
                r = v
                break
        self.dmemo[key] = r
        return r

    def feasible(self):
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*self.base)
        return s.check() != z3.unsat

    # -------------------------------------------------------------- integers
    def div_of(self, a, n):
        cands = [z3.IntVal(0), z3.IntVal(1)]
        for t in _subterms([a]):
            if z3.is_app(t) and t.sort() == I and not z3.is_int_value(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not loose(t):
                cands.append(t)
        for c in cands:
            r = z3.simplify(a - c * n, som=True)
            if self.decide(z3.And(r >= 0, r < n)) is True:
                return c, r
        return None

    # -------------------------------------------------------------- polynomials
    def cond(self, c):
        r = self.decide(c)
        if r is None and not loose(c) and not any(z3.is_app(t) and t.num_args() == 0 and _bound_name(t.decl().name()) for t in _subterms([c])):
            raise NeedSplit(c)
        return r

    def poly(self, e):
        """list of (coefficient, bounds ((var name, range string)...), factors tuple of strings)"""
        if z3.is_rational_value(e) or z3.is_int_value(e):
            q = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            return [(q, (), ())] if q else []
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                out = []
                for c in e.children():
                    out += self.poly(c)
                return self.chk(out)
            if k == z3.Z3_OP_SUB:
                out = self.poly(e.arg(0))
                for c in e.children()[1:]:
                    out = out + [(-q, b, f) for q, b, f in self.poly(c)]
                return self.chk(out)
            if k == z3.Z3_OP_UMINUS:
                return [(-q, b, f) for q, b, f in self.poly(e.arg(0))]
            if k == z3.Z3_OP_MUL:
                out = [(Fraction(1), (), ())]
                for c in e.children():
                    p = self.poly(c)
                    out = self.chk([(q1 * q2, b1 + b2, f1 + f2) for q1, b1, f1 in out for q2, b2, f2 in p])
                return out
            if k == z3.Z3_OP_DIV:
                d = self.poly(e.arg(1))
                if len(d) == 1 and not d[0][1] and d[0][0] != 0:
                    p = self.poly(e.arg(0))
                    return [(q / d[0][0], b, f + tuple(f'inv[{x}]' for x in d[0][2])) for q, b, f in p]
                p = self.poly(e.arg(0))
                s = 'inv[' + self.text(d) + ']'
                return [(q, b, f + (s, )) for q, b, f in p]
            if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() in (2, 3):
                m = e.arg(0)
                for _ in range(int(e.arg(1).as_fraction()) - 1):
                    m = m * e.arg(0)
                return self.poly(m)
            if k == z3.Z3_OP_ITE:
                r = self.cond(e.arg(0))
                if r is True:
                    return self.poly(e.arg(1))
                if r is False:
                    return self.poly(e.arg(2))
                return self.ite(e)
            if k == z3.Z3_OP_TO_REAL and z3.is_app(e.arg(0)):
                a = e.arg(0)
                if z3.is_app_of(a, z3.Z3_OP_ITE):
                    return self.poly(z3.If(a.arg(0), z3.ToReal(a.arg(1)), z3.ToReal(a.arg(2))))
                if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                    a2 = z3.simplify(a, som=True)
                    if a2.decl().kind() == z3.Z3_OP_ADD:
                        return self.poly(z3.Sum([z3.ToReal(c) for c in a2.children()]))
                    if a2.decl().kind() == z3.Z3_OP_MUL:
                        return self.poly(z3.Product([z3.ToReal(c) for c in a2.children()]))
                if z3.is_int_value(a):
                    return self.poly(z3.RealVal(a.as_long()))
                return [(Fraction(1), (), (self.atom(a), ))]
            if k == z3.Z3_OP_SELECT and z3.is_quantifier(e.arg(0)):
                return self.poly(z3.simplify(e))
            if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'SUM' and z3.is_quantifier(e.arg(1)):
                n = e.arg(0)
                n = z3.simplify(n)
                if self.cuts:
                    for cn, cm in self.cuts:
                        if cn.eq(n) and self.decide(z3.And(cm >= 0, cm <= n)) is True:
                            w = z3.Int(f'%c!{self.depth}!')
                            fn = e.arg(1)
                            lo = e.decl()(cm, fn)
                            hi = e.decl()(z3.simplify(n - cm), z3.Lambda([w], z3.simplify(z3.substitute_vars(fn.body(), w + cm))))
                            return self.chk(self.poly(lo) + self.poly(hi))
                self.ctr += 1
                v = z3.Int(f'%v!{self.ctr}!')
                body = z3.simplify(z3.substitute_vars(e.arg(1).body(), v))
                self.facts += [v >= 0, v < n]
                self.active.append((v, n))
                try:
                    p = self.poly(body)
                finally:
                    del self.facts[-2:]
                    self.active.pop()
                ns = self.atom(z3.simplify(n))
                nm = v.decl().name()
                p, out = self.kronecker(p, v, n)
                p, out = self.squares(p, [v >= 0, v < n]), self.squares(out)
                for q, b, f in p:
                    if any(nm in x for x in f) or any(nm in r for _, r in b):
                        out.append((q, b + ((nm, ns), ), f))
                    else:
                        out.append((q, b, f + (ns, )))
                return self.chk(out)
        return [(Fraction(1), (), (self.atom(e), ))]

    def kronecker(self, p, v, n):
        """sum over v < n of [v = t] f(v) is f(t) for 0 <= t < n"""
        nm = v.decl().name()
        rest, out = [], []
        for q, b, f in p:
            hit = None
            for x in f:
                k = self.kron.get(x)
                if k is not None and (k[0].eq(v) or k[1].eq(v)):
                    t = k[1] if k[0].eq(v) else k[0]
                    if t.eq(v):
                        continue
                    r = self.decide(z3.And(t >= 0, t < n))
                    if r is not None:
                        hit = (x, t, r)
                        break
            if hit is None:
                rest.append((q, b, f))
                continue
            x, t, r = hit
            if not r:
                continue
            tn = str(t)
            for y in f:
                if y in self.sqrts:
                    self.sqrts[y.replace(nm, tn)] = z3.substitute(self.sqrts[y], (v, t))
            fs = tuple(self.fixk(y.replace(nm, tn)) for y in f if y != x)
            out.append((q, tuple((bn, br.replace(nm, tn)) for bn, br in b), tuple(dict.fromkeys(y for y in fs if y and y.startswith('ind['))) + tuple(
                y for y in fs if y and not y.startswith('ind['))))
        return rest, out

    def squares(self, p, extra=()):
        """sqrt(x) sqrt(x) is x for x >= 0"""
        out = []
        for q, b, f in p:
            x = next((x for x in f if x in self.sqrts and f.count(x) > 1), None)
            if x is None or not self.nonneg(self.sqrts[x], extra):
                out.append((q, b, f))
                continue
            g = list(f)
            g.remove(x)
            g.remove(x)
            self.facts += list(extra)
            try:
                r = self.poly(self.sqrts[x])
            finally:
                if extra:
                    del self.facts[-len(extra):]
            out += self.squares([(q * q2, b + b2, tuple(g) + f2) for q2, b2, f2 in r], extra)
        return self.chk(out)

    def nonneg(self, t, extra):
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.base, *self.quant, *self.facts, *extra)
        s.add(t < 0)
        return s.check() == z3.unsat

    def cut_at(self, c):
        """an undecided comparison of a summation index with a closed term: the place where the sum is cut in two"""
        if self.cuts is None:
            return
        st = [c]
        while st:
            x = st.pop()
            if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
                st += x.children()
                continue
            if not z3.is_app(x) or x.num_args() != 2 or x.arg(0).sort() != I or x.decl().kind() not in (
                    z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                continue
            k = x.decl().kind()
            for v, n in self.active:
                d = z3.simplify(x.arg(0) - x.arg(1) - v, som=True)
                e = z3.simplify(x.arg(1) - x.arg(0) - v, som=True)
                for r, sw in ((d, False), (e, True)):
                    if any(z3.is_app(t) and t.num_args() == 0 and _bound_name(t.decl().name()) for t in _subterms([r])):
                        continue
                    # not sw: v + r (op) 0;  sw: 0 (op) v + r
                    low = (k in (z3.Z3_OP_GE, z3.Z3_OP_LT)) != sw       # v >= -r / v < -r;  otherwise v > -r / v <= -r
                    m = z3.simplify(-r if low else -r + 1, som=True)
                    if sw:
                        m = z3.simplify(-r if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) else -r + 1, som=True)
                    if not any(cn.eq(n) and cm.eq(m) for cn, cm in self.cuts) and self.decide(z3.And(m >= 0, m <= n)) is True:
                        raise RangeCut(n, m)

    _K = re.compile(r'^ind\[=\(([^(), ]+), ([^(), ]+)\)\]$')

    def fixk(self, y):
        m = self._K.match(y)
        if not m:
            return y
        a, b = sorted(m.groups())
        if a == b:
            return ''
        z = f'ind[=({a}, {b})]'
        if z not in self.kron:
            self.kron[z] = tuple(z3.IntVal(int(c)) if re.fullmatch(r'-?[0-9]+', c) else z3.Int(c) for c in (a, b))
        return z

    def ite(self, e):
        """undecided condition over bound variables: indicator times branches"""
        c0 = self.reduce(e.arg(0))
        self.cut_at(c0)
        s = self.atom_bool(c0)
        if z3.is_eq(c0) and c0.arg(0).sort() == I and all(x.num_args() == 0 for x in c0.children()):
            self.kron[f'ind[{s}]'] = (c0.arg(0), c0.arg(1))
        a, b = self.poly(e.arg(1)), self.poly(e.arg(2))
        f = f'ind[{s}]'
        out = [(q, bb, ff + ((f, ) if f not in ff else ())) for q, bb, ff in a]
        for q, bb, ff in b:
            out += [(q, bb, ff), (-q, bb, ff + ((f, ) if f not in ff else ()))]
        return self.chk(out)

    def reduce(self, c):
        """drop the decided parts of a condition"""
        r = self.decide(c)
        if r is not None:
            return z3.BoolVal(r)
        if z3.is_and(c):
            return z3.simplify(z3.And(*[self.reduce(x) for x in c.children()]))
        if z3.is_or(c):
            return z3.simplify(z3.Or(*[self.reduce(x) for x in c.children()]))
        if z3.is_not(c):
            return z3.simplify(z3.Not(self.reduce(c.arg(0))))
        return c

    def chk(self, p):
        if len(p) > self.LIMIT or (self.deadline and time.time() > self.deadline):
            raise GiveUp('size')
        return p

    def canon_poly(self, p):
        out = {}
        for q, b, f in p:
            key = self.canon_mono(b, f)
            out[key] = out.get(key, 0) + q
        return {k: v for k, v in out.items() if v != 0}

    def canon_mono(self, b, f):
        if not b:
            return ' * '.join(sorted(f))
        if len(b) > 6:
            raise GiveUp('bounds')
        # group variables by an occurrence signature to reduce permutations
        best = None
        for perm in itertools.permutations(range(len(b))):
            m = {b[k][0]: f'%b!{p}!' for p, k in enumerate(perm)}
            pat = re.compile('|'.join(re.escape(x) for x in m))
            fs = sorted(pat.sub(lambda g: m[g.group(0)], x) for x in f)
            bs = [None] * len(b)
            for p, k in enumerate(perm):
                bs[p] = pat.sub(lambda g: m[g.group(0)], b[k][1])
            s = 'S(' + ','.join(bs) + ') ' + ' * '.join(fs)
            if best is None or s < best:
                best = s
        return best

    def text(self, p):
        c = self.canon_poly(p)
        return ' + '.join(f'{v}*{k}' for k, v in sorted(c.items())) or '0'

    def atom_bool(self, e):
        return self.atom(z3.simplify(e))

    def atom(self, e):
        """canonical text of a term"""
        if z3.is_quantifier(e):
            self.depth += 1
            vs = [z3.Const(f'%L!{self.depth}!{q}!', e.var_sort(q)) for q in range(e.num_vars())]
            try:
                b = z3.simplify(z3.substitute_vars(e.body(), *reversed(vs)))
                return ('lam' if e.is_lambda() else 'all' if e.is_forall() else 'ex') + f'[{self.any(b)}]'
            finally:
                self.depth -= 1
        if z3.is_var(e):
            raise GiveUp('var')
        if e.num_args() == 0:
            return str(e)
        k = e.decl().kind()
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV):
            r = self.div_of(e.arg(0), e.arg(1))
            if r:
                return self.any(r[1] if k == z3.Z3_OP_MOD else r[0])
        if k == z3.Z3_OP_ITE:
            r = self.cond(e.arg(0))
            if r is not None:
                return self.any(e.arg(1) if r else e.arg(2))
        nm = e.decl().name()
        ch = [self.any(c) for c in e.children()]
        if nm == 'sqrt' and k == z3.Z3_OP_UNINTERPRETED:
            self.sqrts[f"{nm}({', '.join(ch)})"] = e.arg(0)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            ch = sorted(ch)
        return f"{nm}({', '.join(ch)})"

    def any(self, e):
        if e.sort() == R:
            return '{' + self.text(self.poly(e)) + '}'
        if e.sort() == I and z3.is_app(e):
            e = z3.simplify(e, som=True)
            if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                if e.decl().kind() == z3.Z3_OP_MUL:
                    return '<' + '.'.join(sorted(self.any(c) for c in e.children())) + '>'
                return '<' + '+'.join(sorted(self.any(c) for c in e.children())) + '>'
        return self.atom(e)

    def equal(self, l, r):
        if l.sort() == R:
            p = self.poly(l) + [(-q, b, f) for q, b, f in self.poly(r)]
            return not self.canon_poly(p)
        if l.sort() == I:
            return self.decide(l == r) is True or self.any(l) == self.any(r)
        if l.sort() == B:
            return self.any(l) == self.any(r)
        return self.any(l) == self.any(r)


def equal_split(l, r, hyps, depth=7, deadline=None, cuts=None):
    """l == r under the hypotheses, splitting on undecided closed conditions; tried without, then with sums cut at the thresholds of their conditions"""
    if cuts is None:
        if _equal_split(l, r, hyps, depth, deadline, None):
            return True
        return _equal_split(l, r, hyps, depth, deadline, [])
    return _equal_split(l, r, hyps, depth, deadline, cuts)


def _equal_split(l, r, hyps, depth, deadline, cuts):
    n = Norm(hyps, deadline, cuts)
    if not n.feasible():
        return True
    try:
        return n.equal(l, r)
    except RangeCut as e:
        if len(cuts) >= 5:
            return False
        return _equal_split(l, r, hyps, depth, deadline, cuts + [(e.n, e.m)])
    except NeedSplit as e:
        if depth == 0:
            return False
        c = e.cond
        return all(_equal_split(l, r, hyps + [v], depth - 1, deadline, cuts) for v in (c, z3.Not(c)))
    except GiveUp:
        return False


def array_equal(l, r, hyps, deadline=None):
    s = l.sort()
    if s.kind() != z3.Z3_ARRAY_SORT:
        return equal_split(l, r, hyps, deadline=deadline)
    doms, q = [], 0
    while True:
        try:
            doms.append(s.domain_n(q))
        except z3.Z3Exception:
            break
        q += 1
    vs = [z3.Const(f'%x{q}!', d) for q, d in enumerate(doms)]
    return equal_split(z3.simplify(z3.Select(l, *vs)), z3.simplify(z3.Select(r, *vs)), hyps, deadline=deadline)
