"""Obligations and their discharge (z3, then cvc5 for quantifier-free residue)."""
from __future__ import annotations
import time
import subprocess
import tempfile
import os
import z3
from .values import *
from . import lib, loops, confirm, sums


class Obligation:
    def __init__(self, name, hyps, goal, where=None, lemmas=()):
        self.name, self.hyps, self.goal, self.where = name, list(hyps), goal, where
        self.lemmas = list(lemmas)
        self.status = None      # proved | refuted | unknown
        self.backend = None
        self.time = 0.0
        self.model = None


def subterms(es):
    seen = {}
    st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return seen.values()


def has_free_var(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def skolemize(e, pos, acc):
    """negation normal-ish: strip top-level universal (when asserted negated) quantifiers into constants"""
    return e


def nnf_skolem(e):
    """skolemise an asserted formula with z3's nnf tactic"""
    g = z3.Goal()
    g.add(e)
    try:
        r = z3.Tactic('snf')(g)
    except z3.Z3Exception:
        try:
            r = z3.Tactic('nnf')(g)
        except z3.Z3Exception:
            return [e]
    out = []
    for sub in r:
        out += list(sub)
    return out


def theory_facts(es):
    out = []
    seen = set()
    for t in list(subterms(es)):
        if z3.is_select(t) and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == 'argsort' and not sums.loose(t):
            n, k = t.arg(0).arg(0), t.arg(1)
            out.append(z3.Implies(z3.And(k >= 0, k < n), z3.And(t >= 0, t < n)))
        if not z3.is_app(t) or t.num_args() == 0 or has_free_var(t):
            continue
        nm = t.decl().name()
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        if nm == 'sqrt':
            a = t.arg(0)
            out += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
        elif nm in ('sin', 'cos'):
            a = t.arg(0)
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            out.append(lib.SIN(a) * lib.SIN(a) + lib.COS(a) * lib.COS(a) == 1)
        elif nm in ('MINV', 'MAXV'):
            n, v = t.arg(0), t.arg(1)
            j = z3.Int('mvj')
            w = z3.Const(f"wit_{t.get_id()}", I)
            le = (lambda a, b: a <= b) if nm == 'MINV' else (lambda a, b: a >= b)
            out += [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), le(t, z3.Select(v, j)))),
                    z3.Implies(n > 0, z3.And(w >= 0, w < n, t == z3.Select(v, w)))]
    return out


def univ_defs(eng, es):
    """definitions of the recurrences applied to quantified indices, for every index"""
    loops.reg(eng)
    byfun = {f.name(): r for r in eng.recs.values() for f in r.funs}
    if not byfun:
        return []
    used, bound = {}, False
    for t in subterms(es):
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in byfun:
            used[byfun[t.decl().name()].key] = byfun[t.decl().name()]
            bound = bound or has_free_var(t)
    if not bound:
        return []
    out = []
    for r in used.values():
        t = z3.Int('%ut')
        pairs = [(r.i, t - 1)] + [(c, f(t - 1)) for c, f in zip(r.consts, r.funs)]
        for f, e in zip(r.funs, r.steps):
            out.append(z3.ForAll([t], z3.Implies(t >= 1, f(t) == z3.substitute(e, *pairs)), patterns=[f(t)]))
        out += r.base()
    return out


def inst_foralls(eng, es):
    """instances of universally quantified index facts at the ground indices of the recurrences"""
    byfun = {f.name() for r in eng.recs.values() for f in r.funs}
    idx = {}
    for t in subterms(es):
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in byfun and not has_free_var(t):
            for q in (t.arg(0), t.arg(0) - 1):
                q = z3.simplify(q)
                idx[q.sexpr()] = q
    if len(idx) > 16:
        idx = dict(sorted(idx.items(), key=lambda kv: len(kv[0]))[:16])
    out = []

    def go(e, guard):
        if z3.is_and(e):
            for c in e.children():
                go(c, guard)
        elif z3.is_quantifier(e) and e.is_forall() and e.num_vars() == 1 and e.var_sort(0) == I:
            for q in idx.values():
                out.append(z3.substitute_vars(e.body(), q))

    for e in es:
        go(e, None)
    return out


def inst_defs(eng, es, rounds=2):
    """instances of recurrence / prefix-sum / filter definitions at the index terms that occur"""
    loops.reg(eng)
    facts = []
    done = set()
    byfun = {}
    for r in eng.recs.values():
        for f in r.funs:
            byfun[f.name()] = ('rec', r)
    for p in eng.psums.values():
        byfun[p.f.name()] = ('ps', p)
    for f in eng.filts.values():
        byfun[f.selfn.name()] = ('sel', f)
    if not byfun:
        return facts
    cur = list(es)
    for _ in range(rounds):
        new = []
        idxs = {}
        for t in subterms(cur):
            if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in byfun and not has_free_var(t):
                idxs.setdefault(t.decl().name(), {})[z3.simplify(t.arg(0)).sexpr()] = t.arg(0)
        for nm, ts in idxs.items():
            kind, o = byfun[nm]
            for a in list(ts.values()):
                for q in (a, z3.simplify(a - 1)):
                    key = (nm if kind != 'rec' else o.key, q.sexpr())
                    if key in done:
                        continue
                    done.add(key)
                    if kind in ('rec', 'ps'):
                        new += o.inst(q)
                if kind == 'rec':
                    new += o.base()
                if kind == 'sel':
                    new += o.inst_sel(a)
            if kind == 'ps':
                vs = list(ts.values())
                for x in vs:
                    for y in vs:
                        if x is not y:
                            new += o.pair(x, y)
                for f in eng.filts.values():
                    if f.ps is o:
                        for x in vs:
                            new += f.inst_rank(x)
        # integer index constants are candidates for filters' ranks as well
        facts += new
        cur = new
        if not new:
            break
    return facts


def unify_recs(eng, es, hyps, timeout=3000):
    """equalities between recurrence functions proved by induction"""
    loops.reg(eng)
    names = {t.decl().name() for t in subterms(es) if z3.is_app(t)}
    used = [r for r in eng.recs.values() if any(f.name() in names for f in r.funs)]
    out = []
    for a in range(len(used)):
        for b in range(a + 1, len(used)):
            A, Bq = used[a], used[b]
            m = match_recs(A, Bq, hyps, timeout)
            if m:
                out += m
    return out


def stores(t):
    d = {}
    while z3.is_app_of(t, z3.Z3_OP_STORE):
        i = z3.simplify(t.arg(1))
        if not z3.is_int_value(i):
            return None
        d.setdefault(i.as_long(), t.arg(2))
        t = t.arg(0)
    return t, d


def quick_equal(e, nz):
    """structural or ring equality of the two sides (element by element for explicit vectors)"""
    l, r = z3.simplify(e.arg(0)), z3.simplify(e.arg(1))
    if l.eq(r):
        return True
    if l.sort() == R:
        return size_ok(e) and ring_equal(l, r, nz)
    if l.sort() == VEC:
        a, b = stores(l), stores(r)
        if a and b and a[0].eq(b[0]) and set(a[1]) == set(b[1]):
            return all(a[1][k].eq(b[1][k]) or (size_ok(a[1][k] == b[1][k]) and ring_equal(a[1][k], b[1][k], nz)) for k in a[1])
    return False


def match_recs(A, Bq, hyps, timeout):
    """try to prove F_A[k] == F_B[p(k)] for a sort-respecting injection of the smaller group into the larger"""
    import itertools as it
    small, big = (A, Bq) if len(A.funs) <= len(Bq.funs) else (Bq, A)
    cands = []
    for f in small.funs:
        cands.append([k for k, g in enumerate(big.funs) if g.range() == f.range()])
    for perm in it.product(*cands):
        if len(set(perm)) != len(perm):
            continue
        j = z3.Int('%ind')
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*hyps)
        s.add(j >= 0)
        eqb = [small.inits[q] == big.inits[p] for q, p in enumerate(perm)]
        X = [z3.Const(f'%ih{q}', f.range()) for q, f in enumerate(small.funs)]
        pa = [(small.i, j)] + list(zip(small.consts, X))
        bigv = [None] * len(big.funs)
        for q, p in enumerate(perm):
            bigv[p] = X[q]
        for p in range(len(big.funs)):
            if bigv[p] is None:
                bigv[p] = big.funs[p](j)
        pb = [(big.i, j)] + list(zip(big.consts, bigv))
        eqs = [z3.substitute(small.steps[q], *pa) == z3.substitute(big.steps[p], *pb) for q, p in enumerate(perm)]
        nz = nonzero(hyps)
        left = [e for e in eqb + eqs if not quick_equal(e, nz)]
        if left:
            dl = time.time() + 6
            left = [e for e in left if not sums.array_equal(e.arg(0), e.arg(1), list(hyps) + [j >= 0], dl)]
        if left:
            s.add(z3.Not(z3.And(*left)))
        if not left or s.check() == z3.unsat:
            return [('rec', small.funs[q], big.funs[p]) for q, p in enumerate(perm)]
    return None


def ext_equalities(es, hyps, budget=24, timeout=800):
    """extensional equality of lambda terms that occur as arguments"""
    lams = []
    for t in subterms(es):
        if z3.is_quantifier(t) and t.is_lambda() and not has_loose(t):
            lams.append(t)
    out = []
    n = 0
    for a in range(len(lams)):
        for b in range(a + 1, len(lams)):
            x, y = lams[a], lams[b]
            if x.sort() != y.sort() or x.eq(y):
                continue
            n += 1
            if n > budget:
                return out
            vs = [z3.Const(f'%e{q}', x.var_sort(q)) for q in range(x.num_vars())]
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*hyps)
            s.add(z3.Select(x, *vs) != z3.Select(y, *vs))
            if s.check() == z3.unsat:
                out.append(x == y)
    return out


def has_loose(t):
    """free de Bruijn variables"""
    def go(e, depth):
        if z3.is_var(e):
            return z3.get_var_index(e) >= depth
        if z3.is_quantifier(e):
            return go(e.body(), depth + e.num_vars())
        return any(go(c, depth) for c in e.children())
    return go(t, 0)


INV = z3.Function('%inv', R, R)
BLOW = dict(som=True, som_blowup=1000000, sort_sums=True)


def cancel(e, nz):
    """x * inv(x) -> 1 in a sum of monomials, for x known to be nonzero"""
    terms = e.children() if z3.is_add(e) else [e]
    ch = False
    out = []
    for t in terms:
        fs = list(t.children()) if z3.is_mul(t) else [t]
        inv = [f for f in fs if z3.is_app(f) and f.num_args() == 1 and f.decl().eq(INV)]
        for f in inv:
            for g in fs:
                if g.eq(f.arg(0)) and nz(g):
                    fs.remove(g)
                    fs.remove(f)
                    ch = True
                    break
        r = z3.RealVal(1)
        for f in fs:
            r = r * f
        out.append(r)
    return z3.simplify(z3.Sum(out), **BLOW) if ch else e


def nonzero(hyps):
    memo = {}

    def nz(x):
        k = x.get_id()
        if k not in memo:
            s = z3.Solver()
            s.set('timeout', 500)
            s.add(*[h for h in hyps if not lib._hq(h)])
            s.add(x == 0)
            memo[k] = (s.check() == z3.unsat, x)
        return memo[k][0]
    nz.hyps = [h for h in hyps if not lib._hq(h)]
    return nz


def canon(e, nz=lambda x: False):
    """every quotient a/b as a * inv(b), arguments of functions as sums of monomials, also under binders"""
    memo = {}

    def norm(x):
        if x.sort() == R or x.sort() == I:
            return cancel(z3.simplify(x, **BLOW), nz)
        return x

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e):
            n = e.num_vars()
            if not e.is_lambda():
                out = e
            else:
                vs = [z3.Const(f'%cb{q}_{e.var_sort(q)}_{depth[0]}', e.var_sort(q)) for q in range(n)]
                depth[0] += 1
                body = norm(go(z3.substitute_vars(e.body(), *reversed(vs))))
                depth[0] -= 1
                out = z3.Lambda(vs, body)
        elif not e.children():
            out = e
        else:
            ch = [go(c) for c in e.children()]
            if z3.is_app_of(e, z3.Z3_OP_DIV):
                d = z3.simplify(ch[1], **BLOW)
                if z3.is_rational_value(d):
                    out = ch[0] / d
                else:
                    out = ch[0] * inv(d)
            elif e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and ch[0].sort() == R:
                dif = norm(ch[0] - ch[1])
                k2 = e.decl().kind()
                out = {z3.Z3_OP_LE: dif <= 0, z3.Z3_OP_GE: dif >= 0, z3.Z3_OP_LT: z3.Not(dif >= 0), z3.Z3_OP_GT: z3.Not(dif <= 0)}[k2]
            elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out = e.decl()(*[norm(c) for c in ch])
            else:
                out = e.decl()(*ch)
        memo[k] = (e, out)
        return out

    def inv(d):
        if z3.is_mul(d):                # inv(a b) = inv(a) inv(b)
            r = None
            for c in d.children():
                if z3.is_rational_value(c):
                    q = z3.RealVal(1) / c
                else:
                    q = inv(c)
                r = q if r is None else r * q
            return r
        return INV(d)

    depth = [0]
    return go(e)


def abstract_atoms(eng, es, nz):
    """es with every real comparison over recurrence values replaced by an uninterpreted predicate of the iteration index, equal for comparisons that are
    equal as polynomials: unsatisfiable only if es is"""
    byfun = {f.name() for r in eng.recs.values() for f in r.funs}
    preds, memo, ctr = {}, {}, [0]
    cmps = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)

    def atom(e):
        idx = {}
        for t in subterms([e]):
            if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in byfun:
                idx[t.arg(0).get_id()] = t.arg(0)
        if len(idx) != 1:
            return e
        base = next(iter(idx.values()))
        ph = z3.Int('%ph')
        x = z3.substitute(e, (base, ph))
        c = canon(x, nz)
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
        d = c.arg(0) if c.decl().kind() == z3.Z3_OP_LE else None
        if d is None:
            d = z3.simplify(-c.arg(0), **BLOW)
        d = z3.simplify(d, **BLOW)
        f = preds.get(d.sexpr())
        if f is None:
            f = preds[d.sexpr()] = z3.Function(f'%P{len(preds)}', I, B)
        return z3.Not(f(base)) if neg else f(base)

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e):
            if e.is_lambda():
                out = e
            else:
                ctr[0] += 1
                vs = [z3.Const(f'%ab{ctr[0]}_{q}', e.var_sort(q)) for q in range(e.num_vars())]
                b = go(z3.substitute_vars(e.body(), *reversed(vs)))
                out = z3.ForAll(vs, b) if e.is_forall() else z3.Exists(vs, b)
        elif e.sort() != B or not e.children():
            out = e
        elif e.decl().kind() in cmps and e.arg(0).sort() == R:
            out = atom(e)
        else:
            out = e.decl()(*[go(c) for c in e.children()])
        memo[k] = (e, out)
        return out

    return [go(e) for e in es], len(preds)


def ite_conds(e):
    out = {}
    for t in subterms([e]):
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not has_free_var(t.arg(0)):
            out[t.arg(0).get_id()] = t.arg(0)
    return list(out.values())


def ring_equal(l, r, nz, conds=()):
    q = cancel(z3.simplify(canon(l - r, nz), **BLOW), nz)
    if z3.is_rational_value(q) and q.as_fraction() == 0:
        return True
    if conds:
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(*nz.hyps)
        s.add(*conds)
        s.add(*theory_facts(list(nz.hyps) + list(conds)))
        if s.check() == z3.unsat:
            return True
    cs = ite_conds(q)
    if not cs or len(conds) > 4:
        return False
    c = cs[0]
    z = z3.RealVal(0)
    return all(ring_equal(z3.simplify(z3.substitute(q, (c, z3.BoolVal(v)))), z, nz, conds + (c if v else z3.Not(c), )) for v in (True, False))


def ring_goal(g, nz):
    if z3.is_and(g):
        return all(ring_goal(c, nz) for c in g.children())
    if z3.is_true(g):
        return True
    return z3.is_eq(g) and g.arg(0).sort() == R and size_ok(g) and ring_equal(g.arg(0), g.arg(1), nz)


def size_ok(g, lim=3000):
    n, st, seen = 0, [g], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        if n > lim:
            return False
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return True


def discharge(eng, ob, timeout=8000, use_cvc5=True):
    t0 = time.time()
    goal = ob.goal
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        ob.status, ob.backend, ob.time = 'proved', 'simplifier', time.time() - t0
        return ob
    neg = nnf_skolem(z3.Not(goal))
    hyps = []
    for h in ob.hyps:
        hyps.append(h)
    base = hyps + neg + ob.lemmas
    inst = inst_defs(eng, base)
    th = theory_facts(base + inst)
    full = base + inst + th

    def run(extra, tmo, opts=None):
        s = z3.Solver()
        s.set('timeout', tmo)
        for k, v in (opts or {}).items():
            s.set(k, v)
        s.add(*full)
        s.add(*extra)
        return s.check(), s

    r, s = run([], 400)
    if r != z3.unsat and ring_goal(goal, nonzero(hyps)):
        ob.status, ob.backend, ob.time = 'proved', 'ring normaliser (z3 som)', time.time() - t0
        return ob
    if r != z3.unsat and loops.reg(eng).recs and (lib._hq(goal) or any(lib._hq(h) for h in hyps)):
        abst, n = abstract_atoms(eng, hyps + [z3.Not(goal)], nonzero(hyps))
        if n:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*abst)
            if s.check() == z3.unsat:
                ob.status, ob.backend, ob.time = 'proved', 'z3 (comparisons abstracted after ring normalisation)', time.time() - t0
                return ob
    if r != z3.unsat and lib_has_sum(goal):
        names = unify_recs(eng, [goal], [h for h in hyps if not lib._hq(h)], 3000)
        if sum_goal(eng, goal, hyps + ob.lemmas + [f for f in inst if int_fact(f)], [(f, g2) for _, f, g2 in names]):
            ob.status, ob.backend, ob.time = 'proved', 'finite-sum normaliser (z3 for side conditions)', time.time() - t0
            if names:
                ob.note = 'induction: ' + ', '.join(f"{f.name()}={g2.name()}" for _, f, g2 in names)
            return ob
    if r == z3.unknown:
        r, s = run([], min(timeout, 2500))
    ok = r == z3.unsat
    extra = []
    if not ok:
        # induction-unified recurrences
        names = unify_recs(eng, full, [h for h in hyps if not lib._hq(h)], max(3000, timeout))
        if names:
            pairs = [(f, g2) for _, f, g2 in names]
            sub = lambda e: subst_decl(e, pairs)
            full = [sub(e) for e in full]
            full += inst_defs(eng, full)
            ob.note = 'induction: ' + ', '.join(f"{f.name()}={g2.name()}" for f, g2 in pairs)
            r, s = run([], timeout)
            ok = r == z3.unsat
    if not ok:
        extra = ext_equalities(full, [h for h in hyps if not lib._hq(h)])
        if extra:
            r, s = run(extra, timeout)
            ok = r == z3.unsat
    if not ok and r == z3.unknown:
        for opts in ({'smt.mbqi': False}, {'smt.random_seed': 7}, ):
            r2, s2 = run(extra, timeout // 2, opts)
            if r2 == z3.unsat:
                ok = True
                break
            if r2 == z3.sat and not opts.get('smt.mbqi', True) is False:
                r, s = r2, s2
                break
    if not ok and r != z3.unsat:
        ud = univ_defs(eng, full + extra)
        if ud:
            fa = inst_foralls(eng, full + extra)
            fa += inst_defs(eng, full + fa)
            if fa:
                r2, s2 = run(extra + fa, timeout)
                if r2 != z3.unsat:
                    r2, s2 = run(extra + fa, timeout, {'smt.mbqi': False})
                ok = r2 == z3.unsat
        if ud and not ok:
            for opts in ({}, {'smt.mbqi': False}):
                r2, s2 = run(extra + ud, timeout // 2, opts)
                if r2 == z3.unsat:
                    ok = True
                    break
            else:
                r, s = (r2, s2) if r2 == z3.sat and not opts else (z3.unknown, s2)
    if ok:
        ob.status, ob.backend = 'proved', 'z3'
    elif r == z3.sat:
        ob.status, ob.backend = 'refuted', 'z3'
        try:
            ob.model = s.model()
        except z3.Z3Exception:
            ob.model = None
    else:
        ob.status = 'unknown'
        if use_cvc5:
            rr = run_cvc5(full + extra, timeout)
            if rr == 'unsat':
                ob.status, ob.backend = 'proved', 'cvc5'
            elif rr == 'sat':
                ob.status, ob.backend = 'refuted', 'cvc5'
    if ob.status == 'refuted' and confirm.needs(goal, hyps):
        if not confirm.confirm(hyps + ob.lemmas, goal, ob.model):
            ob.status, ob.backend = 'unknown', 'model not confirmed under the true functions'
    ob.time = time.time() - t0
    return ob


def sum_goal(eng, goal, hyps, recs, budget=30):
    """goal proved by the normal form for finite sums after splitting on closed conditions, resolving div/mod, equating recurrences and unfolding them"""
    if z3.is_and(goal):
        return all(sum_goal(eng, c, hyps, recs, budget) for c in goal.children())
    if z3.is_implies(goal):
        return sum_goal(eng, goal.arg(1), list(hyps) + [goal.arg(0)], recs, budget)
    if not z3.is_eq(goal) or goal.arg(0).sort() not in (R, I, VEC, MAT):
        return False
    return _sum_split(eng, goal, list(hyps), recs, 8, time.time() + budget)


def closed_of(es, kinds):
    out = {}
    for t in subterms(es):
        if z3.is_app(t) and t.decl().kind() in kinds and not sums.loose(t):
            out[t.get_id()] = t
    return sorted(out.values(), key=lambda t: len(t.sexpr()))


def int_fact(f):
    return not any(z3.is_quantifier(t) or t.sort() not in (I, B) for t in subterms([f]))


def live_conds(N, g):
    """closed conditions met from the root, following only the live branches; raises NeedSplit at the first undecided one"""
    seen, dec = set(), []
    st = [g]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not sums.loose(x.arg(0)) and not sums.has_q(x.arg(0)):
            c = x.arg(0)
            v = N.decide(c)
            if v is None:
                raise sums.NeedSplit(c)
            dec.append((c, z3.BoolVal(v)))
            st.append(x.arg(1) if v else x.arg(2))
            continue
        st.extend(x.children())
    return dec


def _sum_split(eng, goal, hyps, recs, depth, deadline):
    N = sums.Norm(hyps, deadline)
    if not N.feasible():
        return True
    byfun = {f.name(): (r, k) for r in eng.recs.values() for k, f in enumerate(r.funs)}
    try:
        g = z3.simplify(goal)
        for _ in range(12):
            if z3.is_true(g):
                return True
            old = g
            pairs = []
            for t in closed_of([g], (z3.Z3_OP_MOD, z3.Z3_OP_IDIV)):
                d = N.div_of(t.arg(0), t.arg(1))
                if d:
                    pairs.append((t, z3.simplify(d[1] if t.decl().kind() == z3.Z3_OP_MOD else d[0])))
            if pairs:
                g = z3.simplify(z3.substitute(g, *pairs))
                continue
            dec = live_conds(N, g)
            if dec:
                g = z3.simplify(z3.substitute(g, *dec))
            if not g.eq(old):
                continue
            if recs:
                g = z3.simplify(subst_decl(g, recs))
            apps = [t for t in closed_of([g], (z3.Z3_OP_UNINTERPRETED, )) if t.num_args() == 1 and t.decl().name() in byfun]
            for t in apps:
                r, k = byfun[t.decl().name()]
                a = z3.simplify(t.arg(0))
                if N.decide(a == 0) is True:
                    g = z3.simplify(z3.substitute(g, (t, r.inits[k])))
                    break
                if any(byfun[u.decl().name()][0] is r and z3.is_int_value(z3.simplify(a - u.arg(0))) and z3.simplify(a - u.arg(0)).as_long() == 1 for u in apps):
                    if N.decide(a >= 1) is True:
                        prs = [(r.i, z3.simplify(a - 1))] + [(c, f(z3.simplify(a - 1))) for c, f in zip(r.consts, r.funs)]
                        g = z3.simplify(z3.substitute(g, (t, z3.substitute(r.steps[k], *prs))))
                        break
            if g.eq(old):
                break
        if z3.is_true(g):
            return True
        if not z3.is_eq(g):
            return N.decide(g) is True
        return sums.array_equal(g.arg(0), g.arg(1), hyps, deadline)
    except sums.NeedSplit as e:
        if depth == 0 or time.time() > deadline:
            return False
        return all(_sum_split(eng, goal, hyps + [v], recs, depth - 1, deadline) for v in (e.cond, z3.Not(e.cond)))
    except sums.GiveUp:
        return False


def lib_has_sum(g):
    return any(z3.is_app(t) and t.decl().name() in ('SUM', 'mod', 'div') or z3.is_app(t) and t.decl().name().startswith('REC') for t in subterms([g]))


def subst_decl(e, pairs):
    for f, g in pairs:
        try:
            e = z3.substitute_funs(e, (f, g(z3.Var(0, I))))
        except Exception:
            return e
    return e


def run_cvc5(es, timeout):
    s = z3.Solver()
    s.add(*es)
    txt = s.to_smt2()
    if '(lambda' in txt:
        return 'skip'
    path = None
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
            path = f.name
        p = subprocess.run(['cvc5', f'--tlimit={timeout}', path], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        if path:
            os.unlink(path)
