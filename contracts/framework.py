"""Contract cases: a case runs real code symbolically and yields named obligations for one property.

mode 'U' : symbolic dimensions and constraint families (no bound)
mode 'B' : small concrete dimensions, values symbolic (labelled bounded)
"""
from __future__ import annotations
import time
import traceback
import z3
from pyver.values import Unsupported, PyRaise, zr, zi, zb, simp, is_z3, Ref, Arr, UVal
from pyver import lib
from pyver.core import Scope, set_counters, counters
from pyver.prove import Obligation, discharge
from contracts import harness as H

CASES = []      # (property, name, fn, modes)


def case(props, name, modes='UB', bvariants=(None, )):
    def deco(fn):
        for p in ([props] if isinstance(props, str) else props):
            CASES.append((p, name, fn, modes))
        fn.bvariants = bvariants
        return fn
    return deco


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, prop, name, mode):
        self.prop, self.name, self.mode = prop, name, mode
        self.obs = []
        self.covers = []
        self.eng = None
        self.engines = []

    @property
    def bounded(self):
        return self.mode == 'B'

    def dim(self, name, n):
        """dimension: symbolic in U, n in B"""
        return n if self.bounded else z3.Int(name)

    def engine(self, mods=None):
        eng = H.new_engine(mods) if mods else H.new_engine()
        self.eng = eng
        self.base = eng.st
        self.engines.append(eng)
        return eng

    def run(self, thunk, allow=(), label=''):
        """explore the harness; every exception not in `allow` yields an obligation that it cannot happen"""
        eng = self.eng
        eng.st = self.base
        outs = eng.run(thunk)
        eng.st = self.base
        good = []
        for o in outs:
            if o.kind == 'raise':
                nm = exc_name(o.value)
                if nm in allow:
                    good.append(o)
                    continue
                self.obs.append((eng, Obligation(f"{self.name}{label}: no {nm}{exc_args(o.value)}", eng.pcs(o.state), z3.BoolVal(False))))
            else:
                good.append(o)
        if not good:
            raise Undecided("no normal outcome (vacuous)")
        self.covers.append((eng, [eng.pcs(o.state) for o in good]))
        return Outs(self, eng, good)

    def at(self, o):
        splits = []
        if getattr(self, 'cur', None) is o:
            splits = [x for x in self.eng.st.pc[len(o.state.pc):] if x[0] == 'branch']
        self.cur = o
        self.eng.st = o.state.copy()
        self.eng.st.pc.extend(splits)
        return self.eng

    def require(self, o, what, goal, extra=(), lemmas=()):
        if goal is None:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        st = self.eng.st if o is None else o.state
        hyps = self.eng.pcs(st) + [e for e in self.eng.pcs(self.eng.st) if True] + list(extra)
        seen, hs = set(), []
        for h in hyps:
            if h.get_id() not in seen:
                seen.add(h.get_id())
                hs.append(h)
        self.obs.append((self.eng, Obligation(f"{self.name}: {what}", hs, goal, lemmas=lemmas)))

    def forall(self, o, what, n, fn, lo=0):
        """goal(k) for every lo <= k < n"""
        n = simp(n)
        if isinstance(n, int):
            for k in range(lo, n):
                self.require(o, f"{what}[{k}]", fn(k))
        else:
            k = z3.Int('%q')
            self.require(o, what, zb(fn(k)), extra=[k >= lo, k < zi(n)])


class Outs:
    """the outcomes of a harness.  Iterating runs the specification once per outcome and, where the specification inspects a guarded union,
    once per alternative of that union."""

    def __init__(self, ctx, eng, good):
        self.ctx, self.eng, self.good = ctx, eng, good

    def __len__(self):
        return len(self.good)

    def __iter__(self):
        eng = self.eng
        saved = eng.scope
        for o in self.good:
            work, cache, c0 = [([], [])], {}, counters()
            while work:
                prefix, rc = work.pop()
                self.ctx.cur = None
                eng.st = self.ctx.base
                eng.scope = Scope(prefix)
                eng.scope.replay_ctrs = rc
                eng.scope.cache = cache
                if prefix:
                    set_counters(c0)
                yield o
                if len(work) > 64:
                    raise Undecided("too many alternatives")
                work.extend(reversed(eng.scope.alts))
                set_counters()
        eng.scope = saved
        eng.st = self.ctx.base


def exc_name(exc):
    c = exc.cls
    p = getattr(c, 'path', None) or getattr(c, 'name', str(c))
    return p.split('.')[-1]


def exc_args(exc):
    try:
        return str(tuple(exc.args))[:120]
    except Exception:
        return ''


# --- spec helpers --------------------------------------------------------------------------------

def arr(eng, v):
    return lib.to_arr(eng, eng.force(v))


def eq(a, b):
    return zr(a) == zr(b)


def vec_eq(ctx, o, what, eng, v, spec_at, n):
    """array value v has length n and elements spec_at(k)"""
    a = arr(eng, v)
    ctx.require(o, what + ' length', z3.BoolVal(a.ndim == 1) if a.ndim != 1 else zi(a.shape[0]) == zi(n))
    if a.ndim == 1:
        ctx.forall(o, what, n, lambda k: eq(a.at(k), spec_at(k)))


def clip(x, lo, hi):
    if lo is not None:
        x = lib.smax(x, lo)
    if hi is not None:
        x = lib.smin(x, hi)
    return x


def sat(hyps, timeout=3000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*hyps)
    return s.check()


def run_case(prop, name, fn, mode, timeout=8000, budget=240):
    """returns a plain-data result"""
    t0 = time.time()
    ctx = Ctx(prop, name, mode)
    res = dict(property=prop, case=name, mode=mode, obligations=[], error=None, functions={}, assumed={}, vacuous=False, solver_s=0.0,
               loops_summarised=0, loops_unrolled=0)
    try:
        for v in (getattr(fn, 'bvariants', (None, )) if mode == 'B' else (None, )):
            ctx.variant = v
            fn(ctx)
    except (Unsupported, Undecided, PyRaise, NotImplementedError, AssertionError, RecursionError) as e:
        res['error'] = f"{type(e).__name__}: {e}"[:400]
    except z3.Z3Exception as e:
        res['error'] = f"z3: {e}"[:400]
    except Exception as e:       # engine limitation, never a verdict
        res['error'] = f"engine {type(e).__name__}: {e} @ {traceback.format_exc().splitlines()[-3].strip()}"[:500]
    for eng in ctx.engines:
        for q, (f, l) in eng.under_contract.items():
            res['functions'][q] = f"{f}:{l}"
        for k, v in eng.assumed.items():
            res['assumed'][k] = res['assumed'].get(k, 0) + v
        res['loops_summarised'] += eng.loops_summarised
        res['loops_unrolled'] += eng.loops_unrolled
    if res['error'] is None:
        for eng, hs in ctx.covers:
            if all(sat([h for h in hy if not lib._hq(h)]) == z3.unsat for hy in hs):
                res['vacuous'] = True
        if not ctx.obs:
            res['error'] = 'zero obligations'
        for eng, ob in ctx.obs:
            if time.time() - t0 > budget:
                ob.status = 'unknown'
                ob.backend = 'budget'
            else:
                try:
                    discharge(eng, ob, timeout)
                except Exception as e:
                    ob.status, ob.backend = 'unknown', f'error {type(e).__name__}: {e}'[:200]
            res['solver_s'] += ob.time
            d = dict(name=ob.name, status=ob.status, backend=ob.backend, time=round(ob.time, 3))
            if getattr(ob, 'note', None):
                d['note'] = ob.note
            if ob.status == 'refuted':
                d['goal'] = str(ob.goal)[:1500]
                d['model'] = str(ob.model)[:3000] if ob.model is not None else None
            res['obligations'].append(d)
    res['wall_s'] = round(time.time() - t0, 2)
    return res
