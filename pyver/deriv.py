"""Symbolic differentiation of result terms (the assumed meaning of jax.grad / jacfwd / jacrev)."""
from __future__ import annotations
import z3
from .values import *
from . import lib

# decl name -> fn(eng, args, var_test) : derivative rules for uninterpreted functions with a vector argument
def gradient(eng, f, args, kwargs):
    x = args[0]
    x = eng.force(x)
    if is_scalar(x):
        v = fresh('dx', R)
        r = eng.call(f.inner, [v] + list(args[1:]), kwargs)
        aux = None
        if f.has_aux:
            r, aux = r
        D = Diff(eng, {v.get_id(): (v, None)})
        back = [(v, zr(x))]
        def fin(t):
            return lit(z3.simplify(z3.substitute(zr(D.d(zr(t), None)), *back)))
        if is_scalar(r):
            out = fin(r)
        else:
            a = lib.to_arr(eng, r)
            out = Arr(a.shape, lambda *i: fin(a.at(*i)))
        return (out, _aux(aux, back)) if f.has_aux else out
    xa = lib.to_arr(eng, x)
    if xa.ndim != 1:
        raise Unsupported("gradient wrt non-vector")
    n = simp(xa.shape[0])
    if isinstance(n, int):
        vs = [fresh(f'dx{k}', R) for k in range(n)]

        def at(k):
            k = simp(k)
            if isinstance(k, int):
                return vs[k]
            r = vs[-1]
            for j in range(n - 2, -1, -1):
                r = site(zi(k) == j, vs[j], r)
            return r

        X = Arr((n, ), at)
        back = [(v, zr(xa.at(k))) for k, v in enumerate(vs)]
        D = Diff(eng, {v.get_id(): (v, k) for k, v in enumerate(vs)})
    else:
        xc = fresh('DX', VEC)
        X = Arr((n, ), None, xc)
        back = [(xc, xa.as_term())]
        D = Diff(eng, {}, xc)
    r = eng.call(f.inner, [X] + list(args[1:]), kwargs)
    r = lib.np_to_jnp(eng, eng.force(r))
    aux = None
    if f.has_aux:
        r, aux = r
        r = lib.np_to_jnp(eng, eng.force(r))
    eng.st.pc = [(k, z3.substitute(e, *back)) for k, e in eng.st.pc]

    def comp(t, k):
        t = zr(t)
        k = simp(k)
        return lit(z3.simplify(z3.substitute(zr(D.d(t, k)), *back)))

    if is_scalar(r):
        out = Arr((n, ), lambda k: comp(r, k))
    else:
        a = lib.to_arr(eng, r)
        if a.ndim == 0:
            out = Arr((n, ), lambda k: comp(a.at(), k))
        elif a.ndim == 1:
            if f.kind == 'grad':
                raise lib.perr('TypeError', 'gradient of a vector function')
            out = Arr((a.shape[0], n), lambda i, k: comp(a.at(i), k))
        else:
            raise Unsupported("jacobian rank")
    if f.has_aux:
        return out, _aux(aux, back)
    return out


def _aux(a, back):
    return subst(a, back) if a is not None else None


class Diff:
    def __init__(self, eng, consts, xc=None):
        self.eng, self.consts, self.xc = eng, consts, xc
        self.cache = {}

    def dep(self, t):
        if self.xc is not None:
            return lib.contains_var(t, self.xc)
        key = t.get_id()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in self.consts and self.consts[x.get_id()][0].eq(x):
                return True
            if z3.is_quantifier(x):
                st.append(x.body())
            else:
                st.extend(x.children())
        return False

    def d(self, t, k):
        """d t / d x[k]"""
        if not self.dep(t):
            return 0
        if t.get_id() in self.consts and self.consts[t.get_id()][0].eq(t):
            j = self.consts[t.get_id()][1]
            if j is None:
                return 1
            c = simp(zi(j) == zi(k))
            return site(c, 1, 0) if is_z3(c) else int(c)
        if not z3.is_app(t):
            raise Unsupported(f"derivative of {t.sexpr()[:60]}")
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            r = 0
            for c in ch:
                r = sadd(r, self.d(c, k))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.d(ch[0], k)
            for c in ch[1:]:
                r = ssub(r, self.d(c, k))
            return r
        if kd == z3.Z3_OP_UMINUS:
            return smul(-1, self.d(ch[0], k))
        if kd == z3.Z3_OP_MUL:
            r = 0
            for j, c in enumerate(ch):
                p = self.d(c, k)
                for q, e in enumerate(ch):
                    if q != j:
                        p = smul(p, lit(e))
                r = sadd(r, p)
            return r
        if kd == z3.Z3_OP_DIV:
            u, v = ch
            du, dv = self.d(u, k), self.d(v, k)
            return ssub(lib.sdiv(du, lit(v)), lib.sdiv(smul(u, dv), smul(v, v)))
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            n = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            return smul(smul(n, lib.spow(ch[0], n - 1)), self.d(ch[0], k))
        if kd == z3.Z3_OP_ITE:
            if self.dep(ch[0]):
                self.eng.assumed['derivative of a branch: the branch taken at the point (not at switching surfaces)'] = 1
            return site(ch[0], self.d(ch[1], k), self.d(ch[2], k))
        if kd == z3.Z3_OP_SELECT:
            arr, idx = ch[0], ch[1:]
            if self.xc is not None and arr.eq(self.xc):
                c = simp(idx[0] == zi(k))
                return site(c, 1, 0) if is_z3(c) else int(c)
            if z3.is_quantifier(arr) and arr.is_lambda():
                return self.d(z3.simplify(t), k)
            if z3.is_app(arr):
                if arr.decl().kind() == z3.Z3_OP_ITE:
                    return site(arr.arg(0), self.d(z3.Select(arr.arg(1), *idx), k), self.d(z3.Select(arr.arg(2), *idx), k))
                return self.uf(arr, k, idx)
        if kd == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if nm == 'sqrt':
                return lib.sdiv(self.d(ch[0], k), smul(2, t))
            if nm == 'sin':
                return smul(lib.COS(ch[0]), self.d(ch[0], k))
            if nm == 'cos':
                return smul(smul(-1, lib.SIN(ch[0])), self.d(ch[0], k))
            if nm == 'tan':
                return smul(sadd(1, smul(t, t)), self.d(ch[0], k))
            if nm == 'arccos':
                return lib.sdiv(smul(-1, self.d(ch[0], k)), lib.ssqrt(ssub(1, smul(ch[0], ch[0]))))
            if nm == 'SUM' and z3.is_quantifier(ch[1]):
                with bvars() as (j, ):
                    body = z3.simplify(z3.substitute_vars(ch[1].body(), j))
                    return lib.sum_term(ch[0], j, z3.simplify(zr(self.d(body, k)), som=True))
            return self.uf(t, k, None)
        raise Unsupported(f"derivative of operator {t.decl().name()}")

    def uf(self, t, k, idx):
        """uninterpreted function application with a vector (or scalar) argument"""
        rules = getattr(self.eng, 'grad_rules', {})
        nm = t.decl().name()
        if nm not in rules:
            raise Unsupported(f"derivative of {nm}")
        return rules[nm](self, t, k, idx)
