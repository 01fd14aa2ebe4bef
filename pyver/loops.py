"""Loop summarisation: a loop over a symbolic index range is executed once at a generic index; every
location it modifies is summarised by a closed form or by a recurrence (whose defining equations are
instantiated by the prover and unified with specification folds by induction)."""
from __future__ import annotations
import ast
import os
import z3
from .values import *
from . import values as V
from .core import UNDEF, MergeFail, Outcome, ClassVal
from . import lib


class NeedCarry(Exception):
    def __init__(self, loc, mode='real'):
        super().__init__(f"carry {loc}")
        self.loc, self.mode = loc, mode


class Poison:
    """value of a loop-modified location at the start of a generic iteration, not yet given a symbol"""

    def __init__(self, loc, why='loop-carried'):
        self.loc, self.why = loc, why

    def touch(self):
        if self.why == 'temp':
            raise Unsupported(f"loop temporary {self.loc} read after the loop")
        raise NeedCarry(self.loc)

    def __repr__(self):
        return f"Poison({self.loc})"


class Recurrence:
    def __init__(self, key, funs, inits, steps, i, consts):
        self.key, self.funs, self.inits, self.steps, self.i, self.consts = key, funs, inits, steps, i, consts

    def inst(self, t):
        """defining equation at index t (t >= 0)"""
        t = zi(t)
        pairs = [(self.i, t)] + [(c, f(t)) for c, f in zip(self.consts, self.funs)]
        out = []
        for f, e in zip(self.funs, self.steps):
            out.append(z3.Implies(t >= 0, f(z3.simplify(t + 1)) == z3.substitute(e, *pairs)))
        return out

    def base(self):
        return [f(z3.IntVal(0)) == init for f, init in zip(self.funs, self.inits)]


class PSum:
    """prefix sum  S(k) = sum_{j<k} term(j)"""

    def __init__(self, f, ivar, term, count):
        self.f, self.ivar, self.term, self.count = f, ivar, term, count

    def at(self, t):
        return z3.substitute(self.term, (self.ivar, zi(t)))

    def inst(self, t):
        t = zi(t)
        f = self.f
        out = [z3.Implies(t >= 0, f(z3.simplify(t + 1)) == f(t) + self.at(t)), f(z3.IntVal(0)) == 0]
        if self.count:
            out += [z3.Implies(t >= 0, z3.And(f(t) >= 0, f(t) <= (t if f.range() == I else z3.ToReal(t))))]
        return out

    def pair(self, a, b):
        if not self.count:
            return []
        f = self.f
        a, b = zi(a), zi(b)
        return [z3.Implies(z3.And(0 <= a, a <= b), f(a) <= f(b)), z3.Implies(z3.And(0 <= a, a < b), f(a) + self.at(a) <= f(b))]


class Filt:
    """ordered selection of the indices of [0,N) satisfying a predicate"""

    def __init__(self, ivar, cond, N, ps, selfn):
        self.ivar, self.cond, self.N, self.ps, self.selfn = ivar, cond, N, ps, selfn

    def cond_at(self, i):
        return z3.substitute(self.cond, (self.ivar, zi(i)))

    def rank(self, i):
        return self.ps.f(zi(i))

    @property
    def total(self):
        return self.ps.f(zi(self.N))

    def sel(self, j):
        return self.selfn(zi(j))

    def inst_sel(self, j):
        j = zi(j)
        s = self.selfn(j)
        return [z3.Implies(z3.And(j >= 0, j < self.total), z3.And(s >= 0, s < zi(self.N), self.cond_at(s), self.rank(s) == j))]

    def axioms(self):
        """the same facts for every index"""
        j, q = z3.Int('%aj'), z3.Int('%aq')
        return [z3.ForAll([j], self.inst_sel(j)[0], patterns=[self.selfn(j)]), z3.ForAll([q], self.inst_rank(q)[0], patterns=[self.rank(q)]),
                z3.ForAll([q], self.inst_rank(q)[0])]

    def inst_rank(self, i):
        i = zi(i)
        return [z3.Implies(z3.And(i >= 0, i < zi(self.N), self.cond_at(i)),
                           z3.And(self.selfn(self.rank(i)) == i, self.rank(i) >= 0, self.rank(i) < self.total))]


def reg(eng):
    if not hasattr(eng, 'psums'):
        eng.psums = {}
        eng.filts = {}
        eng.recs = {}
    return eng


def canon(t, pairs):
    t = z3.substitute(z3.simplify(t, som=False), *pairs) if pairs else z3.simplify(t)
    return t.sexpr()


def nest_guard(eng, terms, what):
    """summary functions are functions of the inner index only: their definition must not depend on an enclosing iteration"""
    for v in eng.st.ghost.get('nest_vars', ()):
        for t in terms:
            if lib.contains_var(t, v):
                raise Unsupported(f"{what} depends on the enclosing loop variable {v}")


def skolem(eng, base, sort):
    """fresh constant, a function of the enclosing iteration indices"""
    vs = eng.st.ghost.get('index_vars', ())
    if not vs:
        return fresh(base, sort)
    return z3.Function(fresh_name(base), *[v.sort() for v in vs], sort)(*vs)


def prefix_sum(eng, ivar, term, n):
    reg(eng)
    term = zr(term) if not isint(term) else zi(term)
    t2 = z3.simplify(term)
    if not lib.contains_var(t2, ivar):
        return simp(t2 * (zi(n) if t2.sort() == I else zr(zi(n))))
    return psum(eng, ivar, t2).f(zi(n))


def psum(eng, ivar, term):
    reg(eng)
    cv = z3.Int('%ps')
    key = canon(term, [(ivar, cv)])
    nest_guard(eng, [z3.substitute(term, (ivar, cv))], 'prefix sum')
    if key not in eng.psums:
        t = z3.simplify(term)
        new = z3.substitute(t, (ivar, cv))
        for p in list(eng.psums.values()):
            if p.f.range() == t.sort() and _valid(p.term == new):
                eng.psums[key] = p
                return p
        f = z3.Function(f"PS{len(eng.psums)}", I, term.sort())
        count = z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and all(
            z3.is_int_value(t.arg(k)) and t.arg(k).as_long() in (0, 1) for k in (1, 2))
        eng.psums[key] = PSum(f, cv, z3.substitute(term, (ivar, cv)), count)
    return eng.psums[key]


def make_filter(eng, ivar, cond, N):
    reg(eng)
    cond = z3.simplify(cond)
    ps = psum(eng, ivar, z3.If(cond, z3.IntVal(1), z3.IntVal(0)))
    ps.count = True
    key = ps.f.name() + '|' + zi(N).sexpr()
    if key not in eng.filts:
        cv = z3.Int('%fl')
        eng.filts[key] = Filt(cv, z3.substitute(cond, (ivar, cv)), N, ps, z3.Function(f"SEL{len(eng.filts)}", I, I))
    t = eng.filts[key].total
    eng.assume(z3.Implies(zi(N) >= 0, z3.And(t >= 0, t <= zi(N))))
    return eng.filts[key]


def filter_of(eng, idx, iv):
    reg(eng)
    if is_z3(idx) and z3.is_app(idx) and idx.num_args() == 1 and idx.arg(0).eq(iv):
        for f in eng.filts.values():
            if f.selfn.eq(idx.decl()):
                return f
    return None


def recur(eng, inits, steps, i, consts):
    """hash-consed simultaneous recurrence; returns functions"""
    reg(eng)
    pairs = [(i, z3.Int('%ri'))] + [(c, z3.Const(f'%rc{k}', c.sort())) for k, c in enumerate(consts)]
    nest_guard(eng, list(inits) + [z3.substitute(x, *pairs) for x in steps], 'recurrence')
    key = '|'.join([canon(a, []) for a in inits] + [canon(s, pairs) for s in steps])
    if key not in eng.recs:
        m = len(eng.recs)
        funs = [z3.Function(f"REC{m}_{k}", I, c.sort()) for k, c in enumerate(consts)]
        eng.recs[key] = Recurrence(key, funs, [z3.simplify(a) for a in inits], [z3.substitute(z3.simplify(s), *pairs) for s in steps], pairs[0][1],
                                   [p[1] for p in pairs[1:]])
    return eng.recs[key].funs


# ------------------------------------------------------------------------------------ loop statements


def exec_for(eng, s):
    def body():
        eng.exec_block(s.body)

    broke = run_loop(eng, eng.iter_parts(eng.eval(s.iter)), lambda v: eng.assign(s.target, v), body, f"{eng.frame[1].name}:{s.lineno}")
    if not broke and s.orelse:
        eng.exec_block(s.orelse)


def exec_while(eng, s):
    """partial correctness: the loop is a counted loop of arbitrary length left when its condition is false"""
    if getattr(eng, 'unroll_whiles', False):
        return unroll_while(eng, s)
    st0 = eng.st.copy()
    cnt = (eng.loops_summarised, eng.loops_unrolled)

    def body():
        c = eng.truth(eng.eval(s.test))
        if not (c if isinstance(c, bool) else eng.choose([c, z3.Not(c)]) == 0):
            raise BreakEx('head')
        eng.exec_block(s.body)

    try:
        n = skolem(eng, 'W', I)
        broke = summarise(eng, n, lambda k: None, lambda v: None, body, f"{eng.frame[1].name}:{s.lineno}", endless=True)
    except Unsupported as e:
        if os.environ.get('DBG'):
            print('WHILE', e)
        eng.st = st0
        eng.loops_summarised, eng.loops_unrolled = cnt
        return unroll_while(eng, s, 8)
    if broke != 'break':
        eng.exec_block(s.orelse)


def unroll_while(eng, s, limit=None):
    for _ in range(limit or eng.unroll_limit):
        c = eng.truth(eng.eval(s.test))
        if isinstance(c, bool):
            cont = c
        else:
            cont = eng.choose([c, z3.Not(c)]) == 0
        if not cont:
            eng.exec_block(s.orelse)
            return
        kind, val = run_iter(eng, lambda: None, lambda: eng.exec_block(s.body))
        eng.loops_unrolled += 1
        if kind == 'break':
            return
        if kind != 'normal':
            eng.resume(kind, val)
    raise Unsupported("while loop not bounded")


def run_iter(eng, bind, body):
    st0 = eng.st

    def thunk():
        bind()
        try:
            body()
        except ContinueEx:
            pass

    outs = eng.explore(thunk)
    return eng.take(outs, st0)


def run_loop(eng, parts, bind, body, where):
    """returns True if left by break"""
    for p in parts:
        if p.n is None:
            for x in p.items:
                eng.loops_unrolled += 1
                kind, val = run_iter(eng, lambda: bind(x), body)
                if kind == 'break':
                    return True
                if kind != 'normal':
                    eng.resume(kind, val)
            continue
        n = simp(p.n)
        if isinstance(n, int):
            if n > eng.unroll_limit:
                raise Unsupported("long concrete loop")
            for k in range(n):
                kind, val = run_iter(eng, lambda: bind(p.item(k)), body)
                if kind == 'break':
                    return True
                if kind != 'normal':
                    eng.resume(kind, val)
            continue
        if summarise(eng, n, p.item, bind, body, where):
            return True
    return False


def comprehension(eng, e, kind):
    ref = eng.alloc(ListCell([]) if kind == 'list' else DictCell([]))
    fid = eng.frame[0]
    names = [x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)]
    saved = {nm: eng.st.envs[fid].get(nm, UNDEF) for nm in names}

    def level(k):
        if k == len(e.generators):
            if kind == 'list':
                v = eng.eval(e.elt)
                c = eng.cell(ref).copy()
                c.segs.append(ListSeg(v))
                eng.set_cell(ref, c)
            else:
                lib.dict_set(eng, ref, eng.force(eng.eval(e.key)), eng.eval(e.value))
            return
        g = e.generators[k]

        def body():
            def ifs(j):
                if j == len(g.ifs):
                    return level(k + 1)
                c = eng.truth(eng.eval(g.ifs[j]))
                return eng.branch2(c, lambda: ifs(j + 1), lambda: None)
            ifs(0)

        run_loop(eng, eng.iter_parts(eng.eval(g.iter)), lambda v: eng.assign(g.target, v), body, f"{eng.frame[1].name}:{e.lineno}")

    level(0)
    env = eng.st.envs[fid]
    for nm, v in saved.items():
        if v is UNDEF:
            env.pop(nm, None)
        else:
            env[nm] = v
    return ref


# ------------------------------------------------------------------------------------ summarisation


def diff_states(a, b):
    """locations of a that have a different value in b"""
    out = []
    for fid, env in a.envs.items():
        e2 = b.envs.get(fid)
        if e2 is None:
            continue
        for nm in sorted(set(env) | set(e2)):
            if nm == '$parent':
                continue
            x, y = env.get(nm, UNDEF), e2.get(nm, UNDEF)
            if not same_val(x, y):
                out.append(('env', fid, nm))
    for i, c in a.heap.items():
        d = b.heap.get(i)
        if d is c or d is None:
            continue
        if c.kind == 'obj':
            for f in sorted(set(c.fields) | set(d.fields)):
                if not same_val(c.fields.get(f, UNDEF), d.fields.get(f, UNDEF)):
                    out.append(('obj', i, f))
        elif c.kind == 'list':
            if len(c.segs) != len(d.segs) or any(not same_seg(x, y) for x, y in zip(c.segs, d.segs)):
                out.append(('list', i))
        elif c.kind == 'dict':
            if len(c.segs) != len(d.segs) or any(not same_dseg(x, y) for x, y in zip(c.segs, d.segs)) or not same_over(c.overlays, d.overlays):
                out.append(('dict', i))
        elif c.kind == 'np':
            if c.arr is not d.arr and not same_val(c.arr, d.arr):
                out.append(('np', i))
        else:
            out.append(('other', i))
    for i, c in a.fams.items():
        d = b.fams.get(i)
        if d is c or d is None:
            continue
        attrs = {o[1] for o in d.over[len(c.over):]}
        for at in sorted(attrs, key=lambda x: x or ''):
            out.append(('fam', i, at))
    return out


def same_val(x, y):
    if x is y:
        return True
    if is_scalar(x) and is_scalar(y):
        return same(x, y) and (isinstance(x, bool) == isinstance(y, bool) or is_z3(x) or is_z3(y))
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.id == y.id
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, Arr) and isinstance(y, Arr) and x.term is not None and y.term is not None:
        return x.term.eq(y.term) and x.shape == y.shape
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        return x.term.eq(y.term)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(same_val(a, b) for a, b in zip(x, y))
    if isinstance(x, FamRef) and isinstance(y, FamRef):
        return x.fid == y.fid and same(x.idx, y.idx)
    if isinstance(x, BoundMethod) and isinstance(y, BoundMethod):
        return same_val(x.recv, y.recv) and x.func is y.func
    if isinstance(x, JitFn) and isinstance(y, JitFn):
        return same_val(x.inner, y.inner)
    return False


def is_marker(s, i):
    """the unknown elements added by earlier iterations of the loop over i"""
    return s.val is UNKNOWN and s.n is not None and is_z3(s.n) and s.n.eq(i)


def same_seg(x, y):
    if x is y:
        return True
    if x.fam != y.fam or not same_val(x.val, y.val):
        return False
    if getattr(x, 'filt', None) is not getattr(y, 'filt', None):
        return False
    ox, oy = getattr(x, 'opt', None), getattr(y, 'opt', None)
    if (ox is None) != (oy is None) or ox is not None and not ox.eq(oy):
        return False
    return not x.fam or same(x.n, y.n) and x.ivar.eq(y.ivar)


def same_dseg(x, y):
    return x is y or (same_key(x.key, y.key) if x.key is not None else y.key is None) and x.famkey == y.famkey and same_seg(x, y)


def same_over(a, b):
    return len(a) == len(b) and all(x is y or x[0] == y[0] and same(x[1], y[1]) and same_val(x[2], y[2]) for x, y in zip(a, b))


def get_loc(st, loc):
    if loc[0] == 'env':
        return st.envs[loc[1]].get(loc[2], UNDEF)
    if loc[0] == 'obj':
        return st.heap[loc[1]].fields.get(loc[2], UNDEF)
    if loc[0] == 'np':
        return st.heap[loc[1]].arr
    if loc[0] in ('list', 'dict'):
        return st.heap[loc[1]]
    raise Unsupported(f"location {loc}")


def put_loc(st, loc, v):
    if loc[0] == 'env':
        st.envs[loc[1]] = dict(st.envs[loc[1]])
        if v is UNDEF:
            st.envs[loc[1]].pop(loc[2], None)
        else:
            st.envs[loc[1]][loc[2]] = v
    elif loc[0] == 'obj':
        c = st.heap[loc[1]].copy()
        if v is UNDEF:
            c.fields.pop(loc[2], None)
        else:
            c.fields[loc[2]] = v
        st.heap[loc[1]] = c
    elif loc[0] == 'np':
        c = st.heap[loc[1]]
        st.heap[loc[1]] = NpCell(v.with_kind('np'), c.view_of)
    else:
        raise Unsupported(f"location {loc}")


class Carry:
    def __init__(self, loc, mode, init):
        self.loc, self.mode, self.init = loc, mode, init
        self.const = None
        self.kind = None      # 'scalar' | 'arr' | 'opaque' | 'npref'
        self.want = None      # sort promotion / growth axis
        self.sym = None


def np_payload(st, v):
    """value -> (kind, payload) usable for a symbolic carry"""
    if is_scalar(v):
        return 'scalar', v
    if isinstance(v, Arr):
        return 'arr', v
    if isinstance(v, Opaque):
        return 'opaque', v
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), NpCell):
        return 'npref', st.heap[v.id].arr
    return None, None


def sort_of(v):
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return I
    if is_z3(v):
        return v.sort()
    return R


def install(eng, st, c, i):
    loc, init = c.loc, c.init
    if c.mode == 'poison':
        put_loc(st, loc, Poison(loc))
        return
    if c.mode == 'havoc':
        st.heap[loc[1]] = havoc_list()
        return
    if c.mode == 'fam':
        # iteration i only updates the i-th member; reads of this field at any other index are refused (fam_get)
        mid = dict(st.ghost.get('fam_mid', {}))
        mid[(loc[1], loc[2])] = c.at
        st.ghost['fam_mid'] = mid
        return
    if loc[0] == 'list':
        st.heap[loc[1]] = ListCell(list(init.segs) + [ListSeg(UNKNOWN, i, fresh('lu', I))])
        c.marker = st.heap[loc[1]].segs[-1]
        return
    if loc[0] == 'dict':
        d = init.copy()
        if c.mode == 'insert':
            sg = DictSeg(None, UNKNOWN, i, fresh('du', I), c.want)
            d.segs = list(init.segs) + [sg]
            c.marker = sg
        else:
            d.missing = ('midloop', [(c.want, c.at)] + (list(init.missing[1]) if init.missing else []))
        st.heap[loc[1]] = d
        c.start = d
        return
    kind, pl = np_payload(st, init) if loc[0] != 'np' else ('arr', init)
    if kind is None:
        raise Unsupported(f"loop-carried value {loc} = {init!r}")
    c.kind = kind
    if kind == 'scalar':
        if is_inf(pl):
            raise Unsupported("loop-carried infinity")
        s = c.want or sort_of(pl)
        if c.const is None or c.const.sort() != s:
            c.const = fresh('c_' + str(loc[-1]), s)
        put_loc(st, loc, c.const)
        c.sym = c.const
        return
    if kind == 'opaque':
        if c.const is None:
            c.const = fresh('c_' + str(loc[-1]), pl.term.sort())
        put_loc(st, loc, Opaque(c.const, pl.pyt))
        return
    # arrays
    if pl.ndim not in (1, 2):
        raise Unsupported("loop-carried array rank")
    s = VEC if pl.ndim == 1 else MAT
    if c.const is None:
        c.const = fresh('c_' + str(loc[-1]), s)
        c.len = fresh('len', I)
    shape = list(pl.shape)
    if c.mode == 'grow':
        shape[c.want] = c.len
        st.pc.append(('fact', c.len >= 0))
    a = Arr(shape, None, c.const, 'np' if kind == 'npref' or loc[0] == 'np' else pl.kind, meta=('carry', loc), dtype=pl.dtype)
    if kind == 'npref':
        ref = Ref(eng.alloc(NpCell(a)).id)
        st.heap[ref.id] = eng.st.heap.pop(ref.id)
        put_loc(st, loc, ref)
    else:
        put_loc(st, loc, a)


def contains_poison(st, v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Poison):
        return v
    if isinstance(v, UVal):
        for _, x in v.cases:
            p = contains_poison(st, x, seen)
            if p:
                return p
    if isinstance(v, tuple):
        for x in v:
            p = contains_poison(st, x, seen)
            if p:
                return p
    if isinstance(v, Ref) and v.id in st.heap and v.id not in seen:
        seen.add(v.id)
        c = st.heap[v.id]
        vals = list(c.fields.values()) if c.kind == 'obj' else [s.val for s in c.segs] if c.kind in ('list', 'dict') else []
        for x in vals:
            p = contains_poison(st, x, seen)
            if p:
                return p
    return None


def summarise(eng, n, item, bind, body, where, endless=False):
    """loop over i in [0,n); returns True when left by break (forking the path if necessary)"""
    reg(eng)
    i = fresh('i', I)
    st0 = eng.st.copy()
    carries = {}
    outer = eng.st.ghost.get('index_vars', ())
    for rnd in range(40):
        st = st0.copy()
        for c in carries.values():
            install(eng, st, c, i)
        rng = z3.And(i >= 0, i < zi(n))
        st.pc.append(('fact', rng))
        st.ghost = dict(st.ghost)
        st.ghost['index_vars'] = outer + (i, )
        st.ghost['nest_vars'] = st.ghost.get('nest_vars', ()) + (i, ) + tuple(
            c.const for c in carries.values() if getattr(c, 'const', None) is not None) + tuple(
                c.len for c in carries.values() if getattr(c, 'len', None) is not None)

        def thunk():
            bind(item(i))
            try:
                body()
            except ContinueEx:
                pass

        try:
            outs = eng.explore(thunk, st)
        except NeedCarry as e:
            c = carries.get(e.loc)
            if c is None:
                raise
            c.mode = e.mode
            continue
        normals = [o for o in outs if o.kind == 'normal']
        exits = [o for o in outs if o.kind != 'normal']
        if not normals:
            if not exits:
                # body unreachable: the range is empty
                return False
            merged = None
        else:
            saved = getattr(eng, 'opt_merge', False)
            eng.opt_merge = True
            try:
                merged = eng.merge_outcomes(normals, st, 'normal')
            except MergeFail as e:
                raise Unsupported(f"loop body merge: {e}")
            finally:
                eng.opt_merge = saved
        # discover modified locations
        changed = False
        ends = ([merged.state] if merged else []) + [o.state for o in exits if o.kind == 'break']
        for es in ends:
            for loc in diff_states(st, es):
                if loc in carries:
                    continue
                changed = True
                if loc[0] == 'list':
                    carries[loc] = Carry(loc, 'append', st0.heap[loc[1]])
                elif loc[0] == 'dict':
                    carries[loc] = dict_carry(st0.heap[loc[1]], es.heap[loc[1]], loc, i)
                elif loc[0] == 'np':
                    carries[loc] = Carry(loc, 'real', st0.heap[loc[1]].arr)
                elif loc[0] in ('env', 'obj'):
                    carries[loc] = Carry(loc, 'poison', get_loc(st0, loc))
                elif loc[0] == 'fam':
                    carries[loc] = Carry(loc, 'fam', None)
                    carries[loc].mode = 'fam'
                    at = [idx for idx, a, _ in es.fams[loc[1]].over[len(st.fams[loc[1]].over):] if a == loc[2]][-1]
                    # distinct iterations update distinct members: the i-th, or the i-th selected one
                    if not same(at, i) and filter_of(eng, at, i) is None:
                        raise Unsupported("family update at permuted indices")
                    carries[loc].at = at
                else:
                    raise Unsupported(f"loop modifies {loc}")
        if changed:
            for c in carries.values():
                if c.mode == 'fam':
                    pass
            continue
        # poison leaks / type promotions
        again = False
        for c in carries.values():
            if c.loc[0] not in ('env', 'obj', 'np') or merged is None:
                continue
            end = get_loc(merged.state, c.loc)
            if c.mode == 'poison':
                continue
            kind, pl = np_payload(merged.state, end) if c.loc[0] != 'np' else ('arr', end)
            if c.kind == 'scalar':
                if kind != 'scalar':
                    if isinstance(end, UVal) and all(is_scalar(x) for _, x in end.cases):
                        raise Unsupported("loop-carried union")
                    raise Unsupported(f"loop-carried {c.loc} changes type")
                s1, s2 = c.const.sort(), sort_of(pl)
                if s1 != s2:
                    if s1 == I and s2 == R:
                        c.want = R
                        again = True
                    elif s1 == B:
                        c.want = s2
                        again = True
            elif c.kind in ('arr', 'npref'):
                if kind not in ('arr', 'npref'):
                    raise Unsupported(f"loop-carried array {c.loc} changes type")
                cur = get_loc(st, c.loc)
                if isinstance(cur, Ref):
                    cur = st.heap[cur.id].arr
                if pl.ndim != cur.ndim:
                    raise Unsupported("loop-carried array rank changes")
                if c.mode == 'real':
                    diff = [k for k in range(pl.ndim) if not _dimeq(eng, st, pl.shape[k], cur.shape[k])]
                    if diff:
                        if os.environ.get("DBG"): print("SHAPE", c.loc, pl, cur, diff)
                        if len(diff) != 1:
                            raise Unsupported("loop-carried array shape changes")
                        c.mode, c.want, c.const = 'grow', diff[0], None
                        again = True
        if merged is not None:
            for loc, c in carries.items():
                vals = []
                if loc[0] in ('env', 'obj'):
                    vals = [get_loc(merged.state, loc)]
                elif loc[0] in ('list', 'dict'):
                    vals = [s.val for s in merged.state.heap[loc[1]].segs] + (
                        [o[2] for o in merged.state.heap[loc[1]].overlays] if loc[0] == 'dict' else [])
                elif loc[0] == 'fam':
                    vals = [o[2] for o in merged.state.fams[loc[1]].over]
                for v in vals:
                    p = contains_poison(merged.state, v)
                    if p is not None and p.loc in carries and carries[p.loc].mode == 'poison':
                        if p.loc == loc and loc[0] == 'env' and (isinstance(c.init, (UVal, FamRef, Poison)) or c.init is UNDEF):
                            continue        # conditionally overwritten temporary: unreadable after the iteration
                        carries[p.loc].mode = 'real'
                        again = True
        for o in exits:
            if o.kind == 'return':
                p = contains_poison(o.state, o.value)
                if p is not None and p.loc in carries and carries[p.loc].mode == 'poison':
                    carries[p.loc].mode = 'real'
                    again = True
        if again:
            continue
        eng.loops_summarised += 1
        return finish(eng, st0, st, n, i, rng, carries, merged, exits, where, endless)
    raise Unsupported("loop summary did not stabilise")


def _dimeq(eng, st, a, b):
    saved = eng.st
    eng.st = st
    try:
        return eng.dim_eq(a, b)
    finally:
        eng.st = saved


def dict_carry(c0, c1, loc, i):
    kinds = set()
    fam = None
    if len(c1.overlays) > len(c0.overlays):
        for f, at, _ in c1.overlays[len(c0.overlays):]:
            fam = f
        kinds.add('update')
    if len(c1.segs) > len(c0.segs):
        kinds.add('insert')
        for s in c1.segs[len(c0.segs):]:
            kp = lib.key_part(s.key)
            if kp is None:
                kinds.add('literal')
            else:
                fam = kp.fam
    if not kinds:
        kinds.add('literalupd')
    if kinds == {'update'}:
        c = Carry(loc, 'update', c0)
        c.want = fam
        c.at = at
        return c
    if kinds == {'insert'}:
        c = Carry(loc, 'insert', c0)
        c.want = fam
        return c
    raise Unsupported(f"dict modified in a loop at literal keys")


def sub_all(v, pairs):
    return subst(v, pairs) if pairs else v


class Freezer:
    def __init__(self, eng, st0, st1, n, i, pairs):
        self.eng, self.st0, self.st1, self.n, self.i, self.pairs = eng, st0, st1, n, i, pairs
        self.memo = {}

    def val(self, v):
        """value valid for symbolic iteration index i after the loop: body-allocated cells become families"""
        if isinstance(v, Ref):
            if v.id in self.st0.heap:
                return v
            return self.ref(v)
        if isinstance(v, UVal):
            return UVal([(sub_all(c, self.pairs), self.val(x)) for c, x in v.cases])
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, BoundMethod):
            return BoundMethod(self.val(v.recv), v.func)
        if isinstance(v, JitFn):
            return JitFn(self.val(v.inner))
        if isinstance(v, GradFn):
            return GradFn(self.val(v.inner), v.kind, v.has_aux)
        if isinstance(v, PartialFn):
            return PartialFn(self.val(v.inner), [self.val(x) for x in v.args], {k: self.val(x) for k, x in v.kwargs.items()})
        if isinstance(v, FamRef) and v.fid not in self.st0.fams:
            fc = self.st1.fams.get(v.fid)
            if fc is not None and v.fid not in self.eng.st.fams:
                self.eng.st.fams[v.fid] = fc
            return sub_all(v, self.pairs)
        if isinstance(v, FuncVal) or v is UNDEF:
            return v
        return sub_all(v, self.pairs)

    def ref(self, r):
        if r.id in self.memo:
            return FamRef(self.memo[r.id], self.i)
        c = self.st1.heap[r.id]
        fc = FamCell('loopcell', c.kind, self.n, self.i, cls=getattr(c, 'cls', None))
        fid = self.eng.new_fam(fc)
        self.memo[r.id] = fid
        if c.kind == 'obj':
            fc.fields = {k: self.val(x) for k, x in c.fields.items()}
        else:
            fc.content = self.cell(c)
        return FamRef(fid, self.i)

    def cell(self, c):
        if c.kind == 'np':
            return NpCell(self.val(c.arr), None)
        elif c.kind == 'list':
            segs = []
            for s in c.segs:
                if getattr(s, 'opt', None) is not None:
                    raise Unsupported("optional element frozen")
                d = ListSeg(self.val(s.val), sub_all(s.n, self.pairs) if s.fam else None, s.ivar)
                if getattr(s, 'filt', None) is not None:
                    d.filt = s.filt
                segs.append(d)
            return ListCell(segs)
        elif c.kind == 'dict':
            segs = []
            for s in c.segs:
                d = DictSeg(sub_all(s.key, self.pairs), self.val(s.val), sub_all(s.n, self.pairs) if s.fam else None, s.ivar, s.famkey)
                if getattr(s, 'filt', None) is not None:
                    d.filt = s.filt
                if getattr(s, 'opt', None) is not None:
                    d.opt = sub_all(s.opt, self.pairs)
                segs.append(d)
            return DictCell(segs, c.missing, [(f, sub_all(k, self.pairs), self.val(x)) for f, k, x in c.overlays])
        raise Unsupported(f"freeze {c.kind}")


def has_const(t, consts):
    return any(lib.contains_var(t, c) for c in consts)


def as_term_of(st, v, sort):
    if isinstance(v, Ref):
        v = st.heap[v.id].arr
    if isinstance(v, Arr):
        return v.as_term()
    if isinstance(v, Opaque):
        return v.term
    if sort == B:
        return zb(v)
    if sort == I:
        return zi(v)
    return zr(v)


def finish(eng, st0, st, n, i, rng, carries, merged, exits, where, endless=False):
    nz = zi(n)
    closed = {}      # const -> closed form at index i
    final_arr = {}
    pend = []
    simple = {}      # loc -> ('region', ...) array results
    grow = {}
    if merged is not None:
        m = merged.state
        for loc, c in carries.items():
            if loc[0] not in ('env', 'obj', 'np') or c.mode in ('poison', ):
                continue
            end = get_loc(m, loc)
            if isinstance(end, Ref):
                end = m.heap[end.id].arr
            if c.mode == 'grow':
                grow[loc] = end
                continue
            if isinstance(end, Arr):
                r = region_write(eng, m, c, end, i, n, carries)
                if r is not None:
                    simple[loc] = r
                    continue
            pend.append((loc, c, as_term_of(m, end, c.const.sort())))
        unresolved = list(pend)
        allc = {c.const.get_id(): c.const for _, c, _ in pend}
        while unresolved:
            progress = False
            for ent in list(unresolved):
                loc, c, e = ent
                e = z3.substitute(e, *[(k, v) for k, v in closed_pairs(closed)]) if closed else e
                others = [x[1].const for x in unresolved if x[1] is not c]
                if has_const(e, others):
                    continue
                cf = closed_form(eng, c, e, i, st0)
                if cf is None:
                    continue
                closed[c.const] = cf
                unresolved.remove(ent)
                progress = True
            if not progress:
                inits = [as_term_of(st0, c.init if loc[0] != 'np' else c.init, c.const.sort()) for loc, c, _ in unresolved]
                steps = [z3.substitute(e, *closed_pairs(closed)) if closed else e for _, _, e in unresolved]
                funs = recur(eng, inits, steps, i, [c.const for _, c, _ in unresolved])
                for (loc, c, _), f in zip(unresolved, funs):
                    closed[c.const] = _uf_closed(f, i)
                unresolved = []
    pairs_i = [(k, f(i)) for k, f in closed.items()]
    # transitively expand (closed forms of later constants may mention earlier ones)
    badconsts = [c.const for loc, c in carries.items() if loc in grow or loc in simple] + [c.len for loc, c in carries.items() if c.mode == 'grow' and hasattr(c, 'len')]

    def clean(v):
        return v

    # ---- exits
    def exit_cond_at(k, os_):
        return z3.Or(*[z3.substitute(z3.substitute(o.guard, *pairs_i) if pairs_i else o.guard, (i, zi(k))) for o in os_])

    took_exit = None
    if exits:
        live = [o for o in exits]
        j = fresh('j', I)
        anyexit = z3.Exists([j], z3.And(j >= 0, j < nz, exit_cond_at(j, live)))
        w = skolem(eng, 'w', I)
        first = z3.And(w >= 0, w < nz, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(exit_cond_at(j, live)))))
        alts = [z3.Not(anyexit)] if merged is not None else [nz <= 0]
        chosen = [z3.And(first, exit_cond_at(w, [o])) for o in live]
        if len(live) == 1:
            alts.append(anyexit)
        else:
            # condition without the skolem constant, so that its negation stays exact
            w2 = fresh('w', I)
            alts += [z3.Exists([w2], z3.substitute(e, (w, w2))) for e in chosen]
        if endless:
            # a run that never leaves the loop has no result
            eng.assume(z3.Or(*alts[1:]))
            alts[0] = z3.BoolVal(False)
        k = eng.choose(alts)
        if k > 0:
            eng.assume(chosen[k - 1])
        if k > 0 and endless and live[k - 1].value == 'head' and live[k - 1].kind == 'break':
            if merged is None:
                raise Unsupported("while loop without a completed iteration")
            for kd, e in live[k - 1].state.pc[len(st0.pc):]:
                if not e.eq(rng):
                    eng.st.pc.append(('fact', z3.substitute(z3.substitute(e, *pairs_i) if pairs_i else e, (i, w))))
            ini = [(c.const, as_term_of(st0, c.init, c.const.sort())) for loc, c in carries.items() if any(c.const is x for x in closed)]
            g0 = z3.simplify(z3.substitute(z3.substitute(live[k - 1].guard, *ini) if ini else live[k - 1].guard, (i, z3.IntVal(0))))
            nonempty = z3.is_false(g0)
            if nonempty:
                eng.assume(w >= 1)
            build_final(eng, st0, w, i, z3.And(i >= 0, i < w), carries, merged, closed, pairs_i, simple, grow, badconsts, w, nonempty)
            return 'head'
        if k > 0:
            return take_exit(eng, st0, n, i, w, carries, merged, live[k - 1], closed, pairs_i, simple, grow, where)
    if merged is None:
        return False
    if endless:
        raise Unsupported("while loop that is never left")
    build_final(eng, st0, n, i, rng, carries, merged, closed, pairs_i, simple, grow, badconsts, n)
    return False


def _uf_closed(f, i):
    g = lambda k: f(zi(k))
    g.i = i
    return g


def closed_pairs(closed):
    return [(k, f(f.i)) for k, f in closed.items()]


def closed_form(eng, c, e, i, st0=None):
    """closed form of  c_{i+1} = e(i, c_i)  with c_0 = init, if it has a simple shape"""
    k = c.const
    s = k.sort()
    init = c.init
    if z3.simplify(e).eq(k) or e.eq(k):
        t = as_term_of(st0, init, s)
        f = lambda q: t
        f.i = i
        return f
    if not lib.contains_var(z3.simplify(e), k):
        # last write: value of the previous iteration
        if s in (B, I, R):
            e2 = z3.simplify(e)
            ini = as_term_of(None, init, s)

            def f(q):
                q = zi(q)
                return z3.simplify(z3.If(q <= 0, ini, z3.substitute(e2, (i, q - 1))))
            f.i = i
            return f
        return None
    if s == B:
        t = z3.simplify(z3.substitute(e, (k, z3.BoolVal(True))))
        fl = z3.simplify(z3.substitute(e, (k, z3.BoolVal(False))))
        ini = zb(init)
        if z3.is_true(t) or _valid(t):
            j = fresh('j', I)
            f = lambda q: z3.simplify(z3.Or(ini, z3.Exists([j], z3.And(j >= 0, j < zi(q), z3.substitute(fl, (i, j))))))
            f.i = i
            return f
        if z3.is_false(fl) or _valid(z3.Not(fl)):
            j = fresh('j', I)
            f = lambda q: z3.simplify(z3.And(ini, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(q)), z3.substitute(t, (i, j))))))
            f.i = i
            return f
        return None
    if s in (I, R):
        d = z3.simplify(e - k, som=True)
        if lib.contains_var(d, k):
            d = z3.simplify(push_delta(e, k), som=True)
        if not lib.contains_var(d, k):
            ini = zi(init) if s == I else zr(init)
            f = lambda q: z3.simplify(ini + (zi if s == I else zr)(prefix_sum(eng, i, d, zi(q))))
            f.i = i
            return f
    return None


def push_delta(e, k):
    """e - k pushed through if-then-else"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), push_delta(e.arg(1), k), push_delta(e.arg(2), k))
    return z3.simplify(e - k, som=True)


def _valid(t):
    s = z3.Solver()
    s.set('timeout', 300)
    s.add(z3.Not(t))
    return s.check() == z3.unsat


def region_write(eng, m, c, end, i, n, carries):
    """c_{i+1} = write(c_i, region(i), value(i)): returns function k -> Arr after k iterations (k = n)"""
    if end.meta is None or end.meta[0] != 'write':
        return None
    _, base, region, valfn, va, op = end.meta
    if op != 'set' or base.term is None or not base.term.eq(c.const):
        return None
    # value must not depend on the carried array
    idx = [fresh('x', I) for _ in end.shape]
    try:
        probe = valfn(*idx)
    except Unsupported:
        return None
    if is_z3(probe) and lib.contains_var(probe, c.const):
        return None
    init = c.init
    if isinstance(init, Ref):
        init = None
    r0 = region[0]
    rest_full = all(p[0] == 'sl' and same(p[1], 0) and same(p[2], s) for p, s in zip(region[1:], end.shape[1:]))
    return ('region', region, valfn, va, rest_full)


def region_result(eng, c, init, reg_, i, k, n, frz):
    """array after k iterations"""
    _, region, valfn, va, rest_full = reg_
    shape = init.shape
    r0 = region[0]
    kz = zi(k)
    if r0[0] == 'idx':
        off = z3.simplify(zi(r0[1]) - i)
        if lib.contains_var(off, i):
            # maybe If(i < 0 ...) normalisation
            off2 = None
            for cand in (z3.IntVal(0), ):
                s = z3.Solver()
                s.set('timeout', 300)
                s.add(i >= 0, zi(r0[1]) != i + cand)
                if s.check() == z3.unsat:
                    off2 = cand
            if off2 is None:
                raise Unsupported("write index pattern")
            off = off2

        def fn(*idx):
            q = simp(zi(idx[0]) - off)
            cs = [zi(q) >= 0, zi(q) < kz]
            for p, x in zip(region[1:], idx[1:]):
                if p[0] == 'idx':
                    cs.append(zi(x) == zi(subst(p[1], [(i, zi(q))])))
                else:
                    lo, ln = subst(p[1], [(i, zi(q))]), subst(p[2], [(i, zi(q))])
                    cs.append(z3.And(zi(x) >= zi(lo), zi(x) < zi(lo) + zi(ln)))
            cond = simp(z3.And(*cs))
            ph = [fresh('px', I) for _ in idx]
            v = valfn(*ph)
            v = frz(v)
            v = subst(v, [(i, zi(q))])
            if is_z3(v):
                v = lit(z3.substitute(v, *[(a, zi(b)) for a, b in zip(ph, idx)]))
            if cond is True:
                return v
            if cond is False:
                return init.at(*idx)
            return site(cond, v, init.at(*idx))

        rowfn = None
        if rest_full and len(shape) == 2 and isinstance(va, Arr) and va.ndim == 1:
            def rowfn(t):
                q = simp(zi(t) - off)
                v = subst(frz(va), [(i, zi(q))])
                cond = simp(z3.And(zi(q) >= 0, zi(q) < kz))
                if cond is True:
                    return v
                # rows outside the written range keep their initial value
                return eng._ite_arr([(zb(cond), v), (z3.Not(zb(cond)), init.row(t))])
        return Arr(shape, fn, rowfn=rowfn, kind=init.kind, dtype=init.dtype)
    lo, w = r0[1], r0[2]
    if is_z3(w):
        w = simp(z3.simplify(w, som=True))
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*[e for e in eng.pcs() if not lib._hq(e)])
    s.add(i >= 0, i < zi(n), zi(w) >= 0)
    s.push()
    s.add(zi(lo) != i * zi(w))
    bad = s.check() != z3.unsat
    s.pop()
    if bad or lib.contains_var(zi(w), i):
        # strided block, clipped forms: try the unclipped width
        if os.environ.get('DBG'): print('BLOCK', lo, '|', w, '|', n, bad, [e for e in eng.pcs()])
        raise Unsupported("block write pattern")
    if not rest_full:
        raise Unsupported("partial block write")
    if isinstance(va, Arr) and va.ndim == len(shape):
        blk = frz(va)
    else:
        ph = fresh('b', I)
        blkshape = (w, ) + tuple(shape[1:])
        nd = len(blkshape)
        vfrz = frz(va)
        blk = Arr(blkshape, lambda *ix: lib.bcast_at(vfrz, ix, nd))
    segs = [Seg(blk, k, i)]
    total = simp(zi(k) * zi(w))
    if eng.dim_eq(total, shape[0]):
        r = lib.seg_array(eng, 0, segs, len(shape), init)
        r.shape = (shape[0], ) + tuple(r.shape[1:])
        return r
    raise Unsupported("block write does not cover the array")


def build_final(eng, st0, n, i, rng, carries, merged, closed, pairs_i, simple, grow, badconsts, k, nonempty=False):
    """install in eng.st (a copy of st0) the state after all iterations"""
    m = merged.state
    nz = zi(n)
    base_len = len(st0.pc)
    cur = eng.st
    for key, v in m.stale.items():
        cur.stale.setdefault(key, v)
    if m.events != st0.events:
        raise Unsupported("events in symbolic loop")
    # every new environment survives only through closures; drop
    frz = Freezer(eng, st0, m, nz, i, pairs_i)

    def chk(t):
        for b in badconsts:
            if is_z3(t) and lib.contains_var(t, b):
                raise Unsupported("loop-carried array used inside its own loop")
        return t

    facts = []
    rng_seen = False
    for kind, e in m.pc[base_len:]:
        if e.eq(rng):
            continue
        if kind == 'fact':
            e = z3.substitute(e, *pairs_i) if pairs_i else e
            if any(lib.contains_var(e, b) for b in badconsts):
                continue
            if lib.contains_var(e, i):
                facts.append(z3.ForAll([i], z3.Implies(rng, e)))
            else:
                facts.append(z3.Implies(nz > 0, e))
    for f in facts:
        cur.pc.append(('fact', f))

    def at_end(v):
        """value at the last iteration"""
        return subst(v, [(i, nz - 1)])

    for loc, c in carries.items():
        if loc[0] in ('env', 'obj', 'np'):
            end = get_loc(m, loc)
            if c.mode == 'poison':
                # last write of a temporary
                try:
                    if contains_poison(m, end) is not None:
                        raise Unsupported("temporary")
                    v = frz.val(end)
                    if isinstance(v, FamRef) or is_scalar(v) or isinstance(v, (Arr, Opaque, str)) or v is None:
                        v = at_end(v)
                        if isinstance(v, FamRef) and nonempty and not any(q[0] in ('list', 'dict') for q in carries):
                            fc = cur.fams.get(v.fid)
                            if fc is not None and fc.kind == 'np' and v.fid not in st0.fams:
                                v = eng.alloc(NpCell(lib.to_arr(eng, v).with_kind('np')))
                        val = v if nonempty else UVal([(nz > 0, v), (nz <= 0, c.init)])
                    else:
                        val = Poison(loc, 'temp')
                except Unsupported:
                    val = Poison(loc, 'temp')
                put_loc(cur, loc, val)
                continue
            init = c.init
            if isinstance(init, Ref):
                init = st0.heap[init.id].arr
            if loc in grow:
                put_loc(cur, loc, grow_result(eng, c, init, grow[loc], i, n, frz, chk))
                continue
            if loc in simple:
                a = region_result(eng, c, init, simple[loc], i, n, n, lambda v: frz.val(v))
                if c.kind == 'npref':
                    r = eng.alloc(NpCell(a.with_kind('np')))
                    put_loc(cur, loc, r)
                else:
                    put_loc(cur, loc, a)
                continue
            t = closed[c.const](nz)
            if c.kind == 'scalar':
                put_loc(cur, loc, lit(z3.simplify(t)))
            elif c.kind == 'opaque':
                put_loc(cur, loc, Opaque(t, c.init.pyt))
            else:
                a = Arr(init.shape, None, t, init.kind if c.kind == 'arr' else 'np', dtype=init.dtype)
                if c.kind == 'npref':
                    r = eng.alloc(NpCell(a))
                    put_loc(cur, loc, r)
                else:
                    put_loc(cur, loc, a)
        elif loc[0] == 'list':
            endc = m.heap[loc[1]]
            if c.mode == 'havoc':
                cur.heap[loc[1]] = havoc_list()
                continue
            pos = [q for q, s in enumerate(endc.segs) if is_marker(s, i)]
            if len(pos) != 1 or not all(same_seg(x, y) for x, y in zip(endc.segs[:pos[0]], c.init.segs)) or pos[0] != len(c.init.segs):
                if os.environ.get('DBG'):
                    print('LIST', loc, [(str(s.val)[:60], s.n, getattr(s,'opt',None)) for s in endc.segs], [(str(s.val)[:60], s.n) for s in c.init.segs])
                raise Unsupported("list modified in a loop other than by append")
            tail = endc.segs[pos[0] + 1:]
            cur.heap[loc[1]] = ListCell(list(c.init.segs) + list_tail(eng, tail, i, nz, frz, pairs_i))
        elif loc[0] == 'dict':
            endc = m.heap[loc[1]]
            if c.mode == 'insert':
                pos = [q for q, s in enumerate(endc.segs) if s is c.marker or is_marker(s, i)]
                if len(pos) != 1 or pos[0] != len(c.init.segs):
                    raise Unsupported("dict modified in a loop")
                tail = endc.segs[pos[0] + 1:]
                cur.heap[loc[1]] = DictCell(list(c.init.segs) + dict_tail(eng, tail, i, nz, frz, pairs_i), c.init.missing, c.init.overlays)
            else:
                cur.heap[loc[1]] = dict_updated(eng, c, endc, i, nz, frz, pairs_i)
        elif loc[0] == 'fam':
            fam_updated(eng, st0, m, cur, loc, i, nz, frz, pairs_i)


def grow_result(eng, c, init, end, i, n, frz, chk):
    axis = c.want
    if end.segs is None or end.segs[0] != axis:
        import os
        if os.environ.get('DBG'): print('GROW', c.loc, axis, end, end.segs, end.term, c.init)
        raise Unsupported("array growth pattern")
    segs = end.segs[1]
    if segs[0].fam or segs[0].arr.term is None or not segs[0].arr.term.eq(c.const):
        raise Unsupported("array growth order")
    delta = segs[1:]
    if len(delta) == 1 and not delta[0].fam:
        blk = delta[0].arr
    else:
        blk = lib.seg_array(eng, axis, delta, end.ndim, delta[0].arr)
    blk = frz.val(blk)
    probe = blk.at(*[fresh('x', I) for _ in blk.shape]) if all(not (is_z3(s) and False) for s in blk.shape) else 0
    chk(probe)
    out = []
    if init.segs is not None and init.segs[0] == axis:
        out += init.segs[1]
    elif not (isinstance(simp(init.shape[axis]), int) and simp(init.shape[axis]) == 0):
        out.append(Seg(init))
    out.append(Seg(blk, zi(n), i))
    ref = Arr(tuple(init.shape), lambda *k: 0)
    # non-growing dimensions follow the blocks
    a = lib.seg_array(eng, axis, out, end.ndim, blk)
    return a.with_kind(end.kind)


def list_tail(eng, tail, i, nz, frz, pairs):
    if not tail:
        return []
    if len(tail) == 1 and not tail[0].fam and getattr(tail[0], 'opt', None) is None:
        return [ListSeg(frz.val(tail[0].val), nz, i)]
    if all(not s.fam and getattr(s, 'opt', None) is not None for s in tail):
        gs = [z3.substitute(s.opt, *pairs) if pairs else s.opt for s in tail]
        # at most one element per iteration: guards pairwise exclusive
        for a in range(len(gs)):
            for b in range(a + 1, len(gs)):
                if not _valid(z3.Not(z3.And(gs[a], gs[b]))):
                    raise Unsupported("several conditional appends per iteration")
        cond = z3.simplify(z3.Or(*gs))
        v = frz.val(tail[0].val) if len(tail) == 1 else eng.merge_vals([(g, frz.val(s.val)) for g, s in zip(gs, tail)])
        f = make_filter(eng, i, cond, nz)
        d = ListSeg(v, f.total, i)
        d.filt = f
        return [d]
    if all(not s.fam and getattr(s, 'opt', None) is None for s in tail):
        m = len(tail)
        j = fresh('lj', I)
        vals = [frz.val(s.val) for s in tail]
        v = eng.merge_vals([(j % m == q, subst(x, [(i, j / m)])) for q, x in enumerate(vals)])
        return [ListSeg(v, simp(nz * m), j)]
    if len(tail) == 1 and tail[0].fam and getattr(tail[0], 'filt', None) is None and not lib.contains_var(zi(tail[0].n), i):
        s = tail[0]
        w = zi(s.n)
        j = fresh('lj', I)
        v = subst(frz.val(s.val), [(i, j / w), (s.ivar, j % w)])
        return [ListSeg(v, simp(nz * w), j)]
    raise Unsupported("append pattern")


def dict_tail(eng, tail, i, nz, frz, pairs):
    if not tail:
        return []
    opt = [getattr(s, 'opt', None) for s in tail]
    if any(s.fam for s in tail):
        raise Unsupported("dict insert pattern")
    kps = [lib.key_part(s.key) for s in tail]
    if any(kp is None for kp in kps) or any(kp.fam != kps[0].fam or not same(kp.idx, kps[0].idx) for kp in kps):
        raise Unsupported("dict insert keys")
    idx = sub_all(kps[0].idx, pairs)
    if any(o is not None for o in opt) and not all(o is not None for o in opt):
        raise Unsupported("dict insert pattern")
    f0 = None
    if not same(idx, i):
        f0 = filter_of(eng, idx, i)
        if f0 is None:
            raise Unsupported("dict insert at permuted keys")
    if opt[0] is None:
        v = frz.val(tail[0].val)
        if len(tail) != 1:
            raise Unsupported("dict insert pattern")
        cond = None
    else:
        gs = [z3.substitute(o, *pairs) if pairs else o for o in opt]
        cond = z3.simplify(z3.Or(*gs))
        v = frz.val(tail[0].val) if len(tail) == 1 else eng.merge_vals([(g, frz.val(s.val)) for g, s in zip(gs, tail)])
    if f0 is not None:
        sv = fresh('sv', I)
        back = [(f0.sel(i), sv), (i, f0.rank(sv))]
        v = subst(subst(v, back[:1]), back[1:])
        if cond is not None:
            raise Unsupported("filter of a filter")
        d = DictSeg(SymStr([KeyPart(kps[0].fam, sv)]), v, nz, sv, kps[0].fam)
        d.filt = f0
        return [d]
    d = DictSeg(SymStr([KeyPart(kps[0].fam, i)]), v, nz, i, kps[0].fam)
    if cond is not None:
        f = make_filter(eng, i, cond, nz)
        d.n = f.total
        d.filt = f
    return [d]


def dict_updated(eng, c, endc, i, nz, frz, pairs):
    new = endc.overlays[len(c.init.overlays):]
    if len(new) != 1:
        raise Unsupported("dict update pattern")
    fam, idx, val = new[0]
    idx = sub_all(idx, pairs)
    v = frz.val(val)
    segs = []
    f0 = None
    if not same(idx, i):
        f0 = filter_of(eng, idx, i)
        if f0 is None:
            raise Unsupported("dict update at permuted keys")
    hit = False
    for s in c.init.segs:
        if s.fam and s.famkey == fam:
            hit = True
            sf = getattr(s, 'filt', None)
            if f0 is None:
                if sf is not None or not eng.dim_eq(s.n, nz):
                    raise Unsupported("partial dict update")
                d = DictSeg(SymStr([KeyPart(fam, s.ivar)]), subst(v, [(i, s.ivar)]), s.n, s.ivar, fam)
            else:
                if sf is not f0:
                    raise Unsupported("partial dict update")
                d = DictSeg(SymStr([KeyPart(fam, s.ivar)]), subst(subst(v, [(f0.sel(i), s.ivar)]), [(i, f0.rank(s.ivar))]), s.n, s.ivar, fam)
                d.filt = sf
            segs.append(d)
        else:
            segs.append(s)
    if not hit:
        raise Unsupported("dict update")
    return DictCell(segs, c.init.missing, [o for o in c.init.overlays if o[0] != fam])


def fam_updated(eng, st0, m, cur, loc, i, nz, frz, pairs):
    _, fid, attr = loc
    fc0, fc1 = st0.fams[fid], m.fams[fid]
    new = [(idx, a, v) for idx, a, v in fc1.over[len(fc0.over):] if a == attr]
    idx, _, v = new[-1]
    if any(not same(x[0], idx) for x in new):
        raise Unsupported("family update at several indices")
    idx = sub_all(idx, pairs)
    v = frz.val(v) if attr is not None else frz.cell(v)
    fc = cur.fams[fid].copy()
    if any(o[1] == attr for o in fc.over):
        raise Unsupported("family update over point update")
    if attr is None:
        if not (same(idx, i) and eng.dim_eq(fc.n, nz)):
            raise Unsupported("family content update at permuted indices")
        fc.content = subst(v, [(i, fc.ivar)])
    elif same(idx, i) and eng.dim_eq(fc.n, nz):
        fc.fields[attr] = subst(v, [(i, fc.ivar)])
    else:
        f0 = filter_of(eng, idx, i)
        if f0 is None or attr not in fc.fields:
            raise Unsupported("family update at permuted indices")
        nv = subst(subst(v, [(f0.sel(i), fc.ivar)]), [(i, f0.rank(fc.ivar))])
        g = f0.cond_at(fc.ivar)
        fc.fields[attr] = eng.merge_vals([(g, nv), (z3.Not(g), fc.fields[attr])])
    cur.fams[fid] = fc


def take_exit(eng, st0, n, i, w, carries, merged, o, closed, pairs_i, simple, grow, where):
    """leave the loop at iteration w through outcome o (first exit)"""
    for loc, c in carries.items():
        if loc[0] in ('env', 'obj') and c.mode == 'poison':
            continue
        if loc[0] in ('env', 'obj') and c.mode == 'real' and (c.kind in ('scalar', 'opaque') or c.kind in ('arr', 'npref') and loc not in simple and loc not in grow):
            continue
        if o.kind == 'raise':
            continue
        raise Unsupported("loop exit with structured loop state")
    cur = eng.st
    sub = lambda v: subst(sub_all(v, pairs_i), [(i, w)])
    base_len = len(st0.pc)
    for kind, e in o.state.pc[base_len:]:
        e2 = z3.substitute(z3.substitute(e, *pairs_i) if pairs_i else e, (i, w))
        cur.pc.append(('fact', e2))
    for key, v in o.state.stale.items():
        cur.stale.setdefault(key, v)
    if o.state.events != st0.events:
        cur.events = list(o.state.events)
    # cells allocated by the exiting iteration survive with i := w
    for rid, cell in o.state.heap.items():
        if rid not in st0.heap:
            try:
                cur.heap[rid] = sub(cell) if not isinstance(cell, ObjCell) else ObjCell(cell.cls, {k: sub(x) for k, x in cell.fields.items()})
            except Unsupported:
                pass
    for loc, c in carries.items():
        if loc[0] in ('env', 'obj'):
            v = get_loc(o.state, loc)
            if isinstance(v, Poison):
                if merged is None:
                    put_loc(cur, loc, c.init)
                else:
                    put_loc(cur, loc, Poison(loc, 'temp'))
                continue
            try:
                put_loc(cur, loc, sub(v))
            except Unsupported:
                put_loc(cur, loc, Poison(loc, 'temp'))
    if o.kind == 'break':
        return 'break'
    val = o.value
    if o.kind == 'return':
        raise ReturnEx(sub(val))
    eng.resume(o.kind, val)
