"""pyver core: direct-style symbolic executor over the Python AST of the code in /repo.

Every run parses the current source; nothing is cached.  Control flow is explored with nested
explore/merge; loops over symbolic ranges are summarised in loops.py; library functions have assumed
contracts in lib.py."""
from __future__ import annotations
import ast
import builtins as _bi
import os
import sys
from fractions import Fraction
import z3
from .values import *
from . import values as V

sys.setrecursionlimit(20000)

UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class ModuleVal:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = {}
        self.pending = {}

    def __repr__(self):
        return f"Module({self.name})"


class ClassVal:
    is_class = True

    def __init__(self, name, module, bases, node=None):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.attrs = {}
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) if isinstance(b, ClassVal) else [b] for b in self.bases] + [list(self.bases)]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("MRO conflict")
                out.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        s.pop(0)
            self._mro = out
        return self._mro

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"Class({self.name})"


class State:
    def __init__(self):
        self.heap = {}
        self.fams = {}
        self.envs = {}
        self.pc = []        # (kind, expr) kind in 'branch','fact'
        self.events = []
        self.in_jit = 0
        self.stale = {}     # (id, field) -> value seen inside jit
        self.ghost = {}

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.fams = dict(self.fams)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.in_jit = self.in_jit
        s.stale = dict(self.stale)
        s.ghost = dict(self.ghost)
        return s


class Scope:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []          # (decisions, counters after each decision but the last)
        self.ctrs = []
        self.replay_ctrs = []
        self.seq = 0
        self.cache = {}


class Outcome:
    def __init__(self, state, kind, value, guard):
        self.state, self.kind, self.value, self.guard = state, kind, value, guard

    def __repr__(self):
        return f"Outcome({self.kind},{self.value})"


class MergeFail(Exception):
    pass


from .values import _ids      # noqa


def _need_carry():
    from .loops import NeedCarry
    return NeedCarry


class Engine:
    MAX_OUTCOMES = 400

    def __init__(self, root='/repo', overrides=None):
        self.root = root
        self.modules = {}
        self.st = State()
        self.scope = Scope([])
        self.axioms = []           # definitional axioms (quantified allowed)
        self.recurrences = []      # recurrence groups created by loop summarisation
        self.assumed = {}          # assumed contracts used: name -> count
        self.under_contract = {}   # functions executed (real code): qualname -> (file, line)
        self.loops_summarised = 0
        self.loops_unrolled = 0
        self.feas_calls = 0
        self._feas_cache = {}
        from . import lib
        self.lib = lib.LIB
        self.libmod = lib
        self.call_depth = 0
        self.hooks_call = {}       # qualname -> Native used instead of body (contract at call site)
        self.unroll_limit = 64
        self.trace = []

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split('.'))
        path = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
        if not os.path.exists(path):
            raise Unsupported(f"module {name} not found")
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        m = ModuleVal(name, path, tree)
        m.is_pkg = path.endswith('__init__.py')
        self.modules[name] = m
        for st in tree.body:
            self._index_top(m, st)
        return m

    def _index_top(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.name.startswith('run_time_assurance'):
                    m.pending[a.asname or a.name.split('.')[0]] = ('mod', a.name)
                elif a.asname:
                    m.ns[a.asname] = Ext(a.name)
                else:
                    m.ns[a.name.split('.')[0]] = Ext(a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            if st.module == '__future__':
                return
            modname = st.module or ''
            if st.level:
                parts = m.name.split('.')
                if not getattr(m, 'is_pkg', False):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                modname = '.'.join(parts + ([st.module] if st.module else []))
            for a in st.names:
                if modname.startswith('run_time_assurance'):
                    if a.name == '*':
                        m.pending.setdefault('*', []).append(modname)
                    else:
                        m.pending[a.asname or a.name] = ('from', modname, a.name)
                else:
                    m.ns[a.asname or a.name] = Ext(f"{modname}.{a.name}")
        elif isinstance(st, (ast.ClassDef, ast.FunctionDef)):
            m.ns.pop(st.name, None)
            m.pending[st.name] = ('def', st)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for nm in ast.walk(t):
                    if isinstance(nm, ast.Name):
                        m.ns.pop(nm.id, None)
                        m.pending[nm.id] = ('assign', st)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            m.pending[st.target.id] = ('assign', st)
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            if isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__':
                    return
                if (isinstance(t, ast.Name) and t.id == 'TYPE_CHECKING') or (isinstance(t, ast.Attribute) and t.attr == 'TYPE_CHECKING'):
                    return
            for s in st.body:
                self._index_top(m, s)

    def mod_get(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if name in m.pending:
            p = m.pending[name]
            if p[0] == 'mod':
                v = self.module(p[1].split('.')[0]) if p[1].split('.')[0] == name else self.module(p[1])
            elif p[0] == 'from':
                try:
                    v = self.mod_get(self.module(p[1]), p[2])
                except KeyError:
                    v = self.module(p[1] + '.' + p[2])
            elif p[0] == 'def':
                m.pending.pop(name)
                v = self.make_def(p[1], m, None, None)
            else:
                st = p[1]
                m.pending.pop(name)
                fid = self.new_env({})
                saved = self.frame if hasattr(self, 'frame') else None
                self.frame = (fid, m, None)
                try:
                    self.exec_stmt(st)
                    for k, val in self.st.envs[fid].items():
                        m.ns[k] = val
                        m.pending.pop(k, None)
                finally:
                    self.frame = saved
                    self.st.envs.pop(fid, None)
                return m.ns[name]
            m.ns[name] = v
            return v
        for src in m.pending.get('*', []):
            try:
                return self.mod_get(self.module(src), name)
            except KeyError:
                pass
        raise KeyError(name)

    def get_class(self, dotted):
        mod, name = dotted.rsplit('.', 1)
        return self.mod_get(self.module(mod), name)

    def make_def(self, node, m, env, cls):
        saved = getattr(self, 'frame', None)
        if isinstance(node, ast.ClassDef):
            fr = (env if env is not None else self.new_env({}), m, None)
            self.frame = fr
            try:
                bases = []
                for b in node.bases:
                    if isinstance(b, ast.Subscript):
                        b = b.value
                    bases.append(self.eval(b))
                if not bases:
                    bases = [Ext('builtins.object')]
                c = ClassVal(node.name, m, bases, node)
                c.env = env
                m_ns_prev = m.ns.get(node.name)
                if env is None:
                    m.ns[node.name] = c
                for s in node.body:
                    self._class_member(c, s, m, env)
                return c
            finally:
                self.frame = saved
        f = self._mkfunc(node, m, env, cls)
        return self._decorate(node, f, m, env)

    def _mkfunc(self, node, m, env, cls):
        f = FuncVal(node, m, env, cls)
        saved = getattr(self, 'frame', None)
        if saved is None or env is None:
            self.frame = (env if env is not None else self.new_env({}), m, None)
        try:
            a = node.args
            f.defaults = [self._default(d) for d in a.defaults]
            f.kw_defaults = [None if d is None else (self._default(d), ) for d in a.kw_defaults]
        finally:
            self.frame = saved
        return f

    def _default(self, node):
        if isinstance(node, ast.Call):
            return LazyDefault(node, 'default computed by a call')
        try:
            return self.eval(node)
        except Unsupported as e:
            return LazyDefault(node, str(e))

    def _decorate(self, node, f, m, env):
        saved = getattr(self, 'frame', None)
        if saved is None:
            self.frame = (self.new_env({}), m, None)
        try:
            for d in reversed(node.decorator_list):
                dv = self.eval(d)
                f = self.call(dv, [f], {})
            return f
        finally:
            self.frame = saved

    def _class_member(self, c, s, m, env):
        if isinstance(s, ast.FunctionDef):
            f = self._mkfunc(s, m, env, c)
            v = f
            for d in reversed(s.decorator_list):
                name = ast.unparse(d)
                if name.endswith('abstractmethod') or name in ('override', 'typing.override'):
                    f.abstract = name.endswith('abstractmethod')
                    continue
                if name == 'property' or name.endswith('cached_property'):
                    v = PropertyVal(f)
                elif name.endswith('.setter'):
                    old = c.attrs.get(name.split('.')[0])
                    v = PropertyVal(old.fget if isinstance(old, PropertyVal) else None, f)
                elif name == 'staticmethod':
                    v = ('static', f)
                elif name == 'classmethod':
                    v = ('classm', f)
                else:
                    saved = getattr(self, 'frame', None)
                    self.frame = (env if env is not None else self.new_env({}), m, None)
                    try:
                        v = self.call(self.eval(d), [v], {})
                    finally:
                        self.frame = saved
            c.attrs[s.name] = v
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    c.attrs[t.id] = self.eval(s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            c.attrs[s.target.id] = self.eval(s.value)
        elif isinstance(s, (ast.Expr, ast.Pass, ast.AnnAssign)):
            pass
        elif isinstance(s, ast.ClassDef):
            c.attrs[s.name] = self.make_def(s, m, env, c)
        else:
            raise Unsupported(f"class member {type(s).__name__}")

    # ------------------------------------------------------------------ heap
    def alloc(self, cell):
        i = next(_ids)
        self.st.heap[i] = cell
        return Ref(i)

    def new_env(self, d):
        i = next(_ids)
        self.st.envs[i] = dict(d)
        return i

    def new_list(self, items):
        return self.alloc(ListCell([ListSeg(x) for x in items]))

    def new_dict(self, pairs):
        return self.alloc(DictCell([DictSeg(k, v) for k, v in pairs]))

    def new_np(self, arr):
        return self.alloc(NpCell(arr.with_kind('np')))

    def cell(self, r):
        if isinstance(r, Ref):
            return self.st.heap[r.id]
        if isinstance(r, FamRef):
            return self.fam_content(r)
        raise Unsupported(f"not a reference: {r!r}")

    def set_cell(self, r, cell):
        if isinstance(r, Ref):
            if self.st.in_jit and r.id in self.st.ghost.get('pre_jit_ids', ()):
                raise Unsupported("mutation of pre-existing object inside a jit-compiled function")
            self.st.heap[r.id] = cell
        elif isinstance(r, FamRef):
            fc = self.st.fams[r.fid].copy()
            fc.over.append((r.idx, None, cell))
            self.st.fams[r.fid] = fc
        else:
            raise Unsupported("set_cell")

    def new_fam(self, fc):
        fid = f"{fc.name}#{next(_ids)}"
        self.st.fams[fid] = fc
        return fid

    def fam_content(self, r):
        fc = self.st.fams[r.fid]
        if fc.kind == 'obj':
            return fc
        mid = self.st.ghost.get('fam_mid', {}).get((r.fid, None))
        if mid is not None and not same(r.idx, mid):
            raise Unsupported("family cell read at another index inside its update loop")
        for idx, attr, val in reversed(fc.over):
            if attr is None:
                if same(idx, r.idx):
                    return val
                if self.entails(zi(idx) != zi(r.idx)):
                    continue
                raise Unsupported("aliasing family cell access")
        return subst(fc.content, [(fc.ivar, zi(r.idx))])

    def fam_get(self, r, attr):
        fc = self.st.fams[r.fid]
        mid = self.st.ghost.get('fam_mid', {}).get((r.fid, attr))
        if mid is not None and not same(mid, r.idx):
            raise Unsupported("member field read while a loop is updating the family")
        if self.st.in_jit and attr in fc.volatile:
            f = fc.fields[attr]
            return self.stale_of(('fam', r.fid, attr), f, fc.ivar, r.idx)
        cases = []
        for idx, a, val in reversed(fc.over):
            if a == attr:
                if same(idx, r.idx):
                    cases.append((None, val))
                    break
                cond = simp(zi(idx) == zi(r.idx))
                if cond is False:
                    continue
                if cond is True:
                    cases.append((None, val))
                    break
                cases.append((cond, val))
        else:
            if attr in fc.fields:
                cases.append((None, subst(fc.fields[attr], [(fc.ivar, zi(r.idx))])))
            elif not cases:
                raise KeyError(attr)
            else:
                raise Unsupported("partial family field")
        v = cases[-1][1]
        for c, x in reversed(cases[:-1]):
            v = self.merge_vals([(c, x), (z3.Not(c), v)])
        return v

    def stale_of(self, key, template, ivar=None, idx=None):
        """value of a mutable location as seen by a traced (jit-compiled) body: its value at trace time,
        unrelated to the current one"""
        if key not in self.st.stale:
            st = self._stale_template(template, ivar)
            self.st.stale[key] = st
        t = self.st.stale[key]
        return subst(t, [(ivar, zi(idx))]) if ivar is not None else t

    def _stale_template(self, v, ivar):
        if is_z3(v):
            if ivar is not None:
                return z3.Function(fresh_name('stale'), I, v.sort())(ivar)
            return fresh('stale', v.sort())
        if isinstance(v, bool):
            return self._stale_template(z3.Bool('x'), ivar)
        if is_num(v):
            return self._stale_template(z3.Real('x'), ivar)
        if isinstance(v, Opaque):
            return Opaque(self._stale_template(v.term, ivar), v.pyt)
        if isinstance(v, Arr):
            t = v.as_term()
            return Arr(v.shape, None, self._stale_template(t, ivar), v.kind)
        if v is None:
            return None
        if isinstance(v, UVal):
            return UVal([(c, self._stale_template(x, ivar)) for c, x in v.cases])
        if isinstance(v, Ref):
            c = self.st.heap[v.id]
            if isinstance(c, DictCell):
                segs = [DictSeg(s.key, self._stale_template(s.val, s.ivar if s.fam else None), s.n, s.ivar, s.famkey) for s in c.segs]
                return self.alloc(DictCell(segs))
            if isinstance(c, NpCell):
                return self.alloc(NpCell(self._stale_template(c.arr, None)))
        raise Unsupported(f"stale view of {v!r}")

    # ------------------------------------------------------------------ path conditions
    def assume(self, e, kind='fact'):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        self.st.pc.append((kind, e))

    def pcs(self, st=None):
        return [e for _, e in (st or self.st).pc]

    def feasible(self, extra=None, st=None):
        es = self.pcs(st)
        if extra is not None:
            es = es + [extra]
        key = tuple(sorted(e.get_id() for e in es))
        if key in self._feas_cache:
            return self._feas_cache[key][0]
        self.feas_calls += 1
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*[e for e in es if not _has_quant(e)])
        r = s.check()
        ok = r != z3.unsat
        self._feas_cache[key] = (ok, es)
        return ok

    def entails(self, goal, timeout=600):
        if isinstance(goal, bool):
            return goal
        g = simp(goal)
        if isinstance(g, bool):
            return g
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*[e for e in self.pcs() if not _has_quant(e)])
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def choose(self, conds):
        """pick one of several exclusive alternatives (z3 Bool or True); records others for exploration"""
        sc = self.scope
        d = len(sc.taken)
        if d < len(sc.prefix):
            j = sc.prefix[d]
        else:
            feas = [j for j, c in enumerate(conds) if not (c is False) and (c is True or self.feasible(c))]
            if not feas:
                raise Infeasible()
            j = feas[0]
            for k in feas[1:]:
                sc.alts.append((sc.taken + [k], list(sc.ctrs)))
        sc.taken.append(j)
        sc.seq = 0
        if d < len(sc.prefix) - 1:
            set_counters(sc.replay_ctrs[d])
        elif d == len(sc.prefix) - 1:
            set_counters()
        sc.ctrs.append(counters())
        if conds[j] is not True:
            self.assume(conds[j], 'branch')
        return j

    def explore(self, thunk, start=None):
        """outcomes of all paths of thunk; while an outer path prefix is replayed, recorded outcomes are reused"""
        sc = self.scope
        key = (tuple(sc.taken), sc.seq)
        sc.seq += 1
        if len(sc.taken) < len(sc.prefix) and key in sc.cache:
            outs, ctrs = sc.cache[key]
            set_counters(ctrs)
            if isinstance(outs, Exception):
                raise outs
            return [Outcome(o.state.copy(), o.kind, o.value, o.guard) for o in outs]
        try:
            outs = self._explore(thunk, start)
        except _need_carry() as e:
            # a loop body is executed again with this location carried; a replay must repeat the same sequence
            set_counters()
            sc.cache[key] = (e, counters())
            raise
        set_counters()
        sc.cache[key] = ([Outcome(o.state.copy(), o.kind, o.value, o.guard) for o in outs], counters())
        return outs

    def _explore(self, thunk, start=None):
        st0 = (start or self.st)
        c0 = counters()
        cache = {}
        saved = (self.st, self.scope, getattr(self, 'frame', None), self.call_depth)
        outs = []
        work = [([], [])]
        base_len = len(st0.pc)
        try:
            while work:
                prefix, rc = work.pop()
                self.st = st0.copy()
                self.scope = Scope(prefix)
                self.scope.replay_ctrs = rc
                self.scope.cache = cache
                if prefix:
                    set_counters(c0)
                self.frame = saved[2]
                self.call_depth = saved[3]
                kind, val = None, None
                try:
                    val = thunk()
                    kind = 'normal'
                except ReturnEx as e:
                    kind, val = 'return', e.value
                except BreakEx as e:
                    kind, val = 'break', (e.args[0] if e.args else None)
                except ContinueEx:
                    kind = 'continue'
                except PyRaise as e:
                    kind, val = 'raise', e.exc
                except Infeasible:
                    pass
                work.extend(reversed(self.scope.alts))
                if kind:
                    g = [e for k, e in self.st.pc[base_len:] if k == 'branch']
                    outs.append(Outcome(self.st, kind, val, z3.And(*g) if len(g) != 1 else g[0]) if g else Outcome(
                        self.st, kind, val, z3.BoolVal(True)))
                    if len(outs) > self.MAX_OUTCOMES:
                        raise Unsupported("path explosion")
        finally:
            self.st, self.scope, self.frame, self.call_depth = saved
        return outs

    def merge_outcomes(self, outs, st0, kind):
        """merge outcomes of the same kind into one; raises MergeFail"""
        if len(outs) == 1:
            return outs[0]
        gs = [o.guard for o in outs]
        saved = self.st
        base = len(st0.pc)
        st = st0.copy()
        self.st = st
        try:
            for g, o in zip(gs, outs):
                for k, e in o.state.pc[base:]:
                    if k == 'fact':
                        st.pc.append(('fact', z3.Implies(g, e)))
            st.pc.append(('branch', z3.Or(*gs)))
            if any(o.state.events != outs[0].state.events for o in outs):
                raise MergeFail('events')
            st.events = list(outs[0].state.events)
            for o in outs:
                st.stale.update({k: v for k, v in o.state.stale.items() if k not in st.stale})
                for k, v in o.state.ghost.items():
                    if k not in st.ghost:
                        st.ghost[k] = v
                    elif isinstance(k, tuple) and k[0] == 'views' and st.ghost[k] != v:
                        st.ghost[k] = st.ghost[k] + tuple(x for x in v if x not in st.ghost[k])
            # cells created since st0: shared path prefixes share their ids, so a cell can have diverged
            def fresh_of(attr, base):
                acc = {}
                for g, o in zip(gs, outs):
                    for i, c in getattr(o.state, attr).items():
                        if i not in base:
                            acc.setdefault(i, []).append((g, c))
                return acc

            nh, nf, ne = fresh_of('heap', st0.heap), fresh_of('fams', st0.fams), fresh_of('envs', st0.envs)
            new_ids = {i: True for i in nh}
            late = []
            for i, gc in nh.items():
                st.heap[i] = gc[0][1]
                if any(c is not gc[0][1] for _, c in gc):
                    late.append((i, gc))
            for i, gc in nf.items():
                st.fams[i] = gc[0][1]
                if any(c is not gc[0][1] for _, c in gc):
                    st.fams[i] = self.merge_fams([g for g, _ in gc], [c for _, c in gc])
            self._merge_new = new_ids
            for i, gc in late:
                st.heap[i] = self.merge_cells([g for g, _ in gc], [c for _, c in gc])
            for i, gc in ne.items():
                e0 = gc[0][1]
                if all(c is e0 for _, c in gc):
                    st.envs[i] = e0
                    continue
                st.envs[i] = {}
                for n in sorted(set().union(*[c for _, c in gc])):
                    st.envs[i][n] = self.merge_vals([(g, c.get(n, UNDEF)) for g, c in gc])
            self._merge_new = new_ids
            for i in st0.heap:
                cs = [o.state.heap.get(i) for o in outs]
                if all(c is cs[0] for c in cs):
                    st.heap[i] = cs[0]
                else:
                    st.heap[i] = self.merge_cells(gs, cs)
            for i in st0.fams:
                cs = [o.state.fams.get(i) for o in outs]
                if all(c is cs[0] for c in cs):
                    st.fams[i] = cs[0]
                else:
                    st.fams[i] = self.merge_fams(gs, cs)
            for i in st0.envs:
                es = [o.state.envs.get(i, {}) for o in outs]
                names = sorted(set().union(*es))
                st.envs[i] = {}
                for n in names:
                    vs = [e.get(n, UNDEF) for e in es]
                    st.envs[i][n] = self.merge_vals(list(zip(gs, vs)))
            val = None
            if kind in ('normal', 'return'):
                val = self.merge_vals([(g, o.value) for g, o in zip(gs, outs)])
            return Outcome(st, kind, val, z3.Or(*gs))
        finally:
            self.st = saved

    def merge_cells(self, gs, cs):
        k = cs[0].kind
        if any(c.kind != k for c in cs):
            raise MergeFail('cell kinds')
        if k == 'obj':
            names = {}
            for c in cs:
                for f in c.fields:
                    names[f] = True
            return ObjCell(cs[0].cls, {f: self.merge_vals([(g, c.fields.get(f, UNDEF)) for g, c in zip(gs, cs)]) for f in names})
        if k == 'np':
            v = self.merge_vals([(g, c.arr) for g, c in zip(gs, cs)])
            if not isinstance(v, Arr):
                raise MergeFail('np cell')
            return NpCell(v.with_kind('np'))
        if k == 'list':
            if any(getattr(c, 'havoc', False) for c in cs):
                return havoc_list()
            if any(len(c.segs) != len(cs[0].segs) for c in cs):
                if getattr(self, 'opt_merge', False):
                    return self._merge_opt(gs, cs, ListCell)
                raise MergeFail('list length')
            segs = []
            for ss in zip(*[c.segs for c in cs]):
                if all(s is ss[0] for s in ss):
                    segs.append(ss[0])
                elif any(s.fam for s in ss):
                    raise MergeFail('list fam seg')
                else:
                    segs.append(ListSeg(self.merge_vals([(g, s.val) for g, s in zip(gs, ss)])))
            return ListCell(segs)
        if k == 'dict':
            if any(len(c.segs) != len(cs[0].segs) or len(c.overlays) != len(cs[0].overlays) for c in cs):
                if getattr(self, 'opt_merge', False) and all(c.overlays == cs[0].overlays for c in cs):
                    return self._merge_opt(gs, cs, DictCell)
                raise MergeFail('dict length')
            segs = []
            for ss in zip(*[c.segs for c in cs]):
                if all(s is ss[0] for s in ss):
                    segs.append(ss[0])
                elif any(s.fam or getattr(s, 'opt', None) is not None for s in ss) or any(not same_key(s.key, ss[0].key) for s in ss):
                    raise MergeFail('dict seg')
                else:
                    segs.append(DictSeg(ss[0].key, self.merge_vals([(g, s.val) for g, s in zip(gs, ss)])))
            ovs = []
            for os_ in zip(*[c.overlays for c in cs]):
                if any(not (o[0] == os_[0][0] and same(o[1], os_[0][1])) for o in os_):
                    raise MergeFail('dict overlay')
                ovs.append((os_[0][0], os_[0][1], self.merge_vals([(g, o[2]) for g, o in zip(gs, os_)])))
            return DictCell(segs, cs[0].missing, ovs)
        if k == 'set':
            raise MergeFail('set')
        raise MergeFail(k)

    def _merge_opt(self, gs, cs, K):
        """loop bodies only: differing tails become conditional elements"""
        m = min(len(c.segs) for c in cs)
        k = 0
        while k < m and all(c.segs[k] is cs[0].segs[k] for c in cs):
            k += 1
        segs = list(cs[0].segs[:k])
        for g, c in zip(gs, cs):
            for s in c.segs[k:]:
                if s.fam:
                    raise MergeFail('optional family')
                d = ListSeg(s.val) if K is ListCell else DictSeg(s.key, s.val)
                o = getattr(s, 'opt', None)
                d.opt = g if o is None else z3.And(g, o)
                segs.append(d)
        return ListCell(segs) if K is ListCell else DictCell(segs, cs[0].missing, cs[0].overlays)

    def merge_fams(self, gs, cs):
        # point updates at the same index: merge value-wise; absent -> previous value
        n0 = min(len(c.over) for c in cs)
        common = 0
        while common < n0 and all(c.over[common] is cs[0].over[common] for c in cs):
            common += 1
        if any(c.fields is not cs[0].fields and c.fields != cs[0].fields for c in cs):
            raise MergeFail('fam fields')
        out = cs[0].copy()
        out.over = list(cs[0].over[:common])
        keys = []
        for c in cs:
            for idx, a, v in c.over[common:]:
                if not any(a == a2 and same(idx, i2) for i2, a2 in keys):
                    keys.append((idx, a))
        if len({str(simp(zi(i))) for i, _ in keys}) > 1:
            raise MergeFail('fam indices')
        base = cs[0].copy()
        base.over = list(out.over)
        for idx, a in keys:
            if a is None:
                out.over.append((idx, None, self._merge_content(gs, [self._content_of(c, base, idx, common) for c in cs])))
                continue
            vals = []
            for g, c in zip(gs, cs):
                found = [v for i2, a2, v in c.over[common:] if a2 == a and same(i2, idx)]
                if found:
                    vals.append((g, found[-1]))
                else:
                    fid = '$tmp'
                    self.st.fams[fid] = base
                    try:
                        vals.append((g, self.fam_get(FamRef(fid, idx), a)))
                    except KeyError:
                        raise MergeFail('fam field undefined')
                    finally:
                        del self.st.fams[fid]
            out.over.append((idx, a, self.merge_vals(vals)))
        return out

    def _content_of(self, c, base, idx, common):
        found = [v for i2, a2, v in c.over[common:] if a2 is None and same(i2, idx)]
        if found:
            return found[-1]
        self.st.fams['$tmp'] = base
        try:
            return self.fam_content(FamRef('$tmp', idx))
        finally:
            del self.st.fams['$tmp']

    def _merge_content(self, gs, cs):
        """contents of one family member on different paths; keys stored on some paths only become conditional entries"""
        if any(c.kind != cs[0].kind for c in cs):
            raise MergeFail('fam content')
        if cs[0].kind != 'dict':
            return self.merge_cells(gs, cs)
        if any(c.overlays for c in cs) or any(s.fam for c in cs for s in c.segs):
            raise MergeFail('fam content')
        keys = []
        for c in cs:
            for s in c.segs:
                if not any(same_key(s.key, k) for k in keys):
                    keys.append(s.key)
        segs = []
        for k in keys:
            have = [(g, s) for g, c in zip(gs, cs) for s in c.segs if same_key(s.key, k)]
            if all(s is have[0][1] for _, s in have) and len(have) == len(cs):
                segs.append(have[0][1])
                continue
            d = DictSeg(k, self.merge_vals([(g, s.val) for g, s in have]) if len(have) > 1 else have[0][1].val)
            if len(have) < len(cs) or any(getattr(s, 'opt', None) is not None for _, s in have):
                d.opt = simp(z3.Or(*[z3.And(g, s.opt) if getattr(s, 'opt', None) is not None else g for g, s in have]))
            segs.append(d)
        return DictCell(segs, cs[0].missing)

    def merge_vals(self, cases):
        flat = []
        for g, v in cases:
            if isinstance(v, UVal):
                for c2, v2 in v.cases:
                    flat.append((z3.And(g, c2), v2))
            else:
                flat.append((g, v))
        cases = flat
        vs = [v for _, v in cases]
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(is_scalar(v) for v in vs):
            try:
                r = vs[-1]
                for g, v in reversed(cases[:-1]):
                    r = site(g, v, r)
                return r
            except Unsupported:
                return UVal(self._dedup(cases))
        if all(isinstance(v, str) for v in vs) and len(set(vs)) == 1:
            return v0
        if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
            return tuple(self.merge_vals([(g, v[k]) for g, v in cases]) for k in range(len(v0)))
        if all(isinstance(v, Arr) for v in vs) and len({v.ndim for v in vs}) == 1 and len({v.kind for v in vs}) == 1:
            if all(all(self.dim_eq(a, b) for a, b in zip(v.shape, v0.shape)) for v in vs[1:]):
                return self._ite_arr(cases)
        if all(isinstance(v, Opaque) for v in vs) and all(v.term.sort() == v0.term.sort() for v in vs):
            t = vs[-1].term
            for g, v in reversed(cases[:-1]):
                t = z3.If(g, v.term, t)
            return Opaque(t, v0.pyt)
        if all(isinstance(v, FamRef) for v in vs) and len({v.fid for v in vs}) == 1:
            r = vs[-1].idx
            for g, v in reversed(cases[:-1]):
                r = site(g, v.idx, r)
            return FamRef(v0.fid, r)
        if all(isinstance(v, Ref) for v in vs):
            if all(v.id == v0.id for v in vs):
                return v0
            mn = getattr(self, '_merge_new', {})
            if all(v.id in mn and isinstance(self.st.heap.get(v.id), NpCell) for v in vs):
                a = self.merge_vals([(g, self.st.heap[v.id].arr) for g, v in cases])
                if isinstance(a, Arr):
                    # which buffer it is depends on the branch: keep that for the aliasing obligations
                    mk = ('merged', tuple((g.get_id(), v.id) for g, v in cases))
                    known = self.st.ghost.get(mk)
                    if known is not None and known in self.st.heap:
                        return Ref(known)
                    r = self.alloc(NpCell(a))
                    mn[r.id] = True
                    self.st.ghost[mk] = r.id
                    self.st.ghost[('parts', r.id)] = tuple((g, v.id) for g, v in cases)
                    for v in vs + [r]:
                        self.st.ghost[('part', v.id)] = True
                    return r
        if all(isinstance(v, BoundMethod) for v in vs) and all(v.recv == v0.recv and v.func is v0.func for v in vs):
            return v0
        return UVal(self._dedup(cases))

    def _dedup(self, cases):
        out = []
        for g, v in cases:
            for k, (g2, v2) in enumerate(out):
                if v2 is v or (type(v2) is type(v) and isinstance(v, (str, int, Ref, type(None))) and v2 == v):
                    out[k] = (z3.Or(g2, g), v2)
                    break
            else:
                out.append((g, v))
        return out

    def _ite_arr(self, cases):
        vs = [v for _, v in cases]
        v0 = vs[0]

        def fn(*idx):
            r = vs[-1].at(*idx)
            for g, v in reversed(cases[:-1]):
                r = site(g, v.at(*idx), r)
            return r

        term = None
        if all(v.term is not None for v in vs):
            term = vs[-1].term
            for g, v in reversed(cases[:-1]):
                term = z3.If(g, v.term, term)
        rowfn = None
        if v0.ndim > 1 and any(v.rowfn for v in vs):
            def rowfn(t):
                return self._ite_arr([(g, v.row(t)) for g, v in cases])
        segs = None
        if all(v.segs is not None and v.segs[0] == v0.segs[0] and len(v.segs[1]) == len(v0.segs[1]) for v in vs):
            # block structure survives when the blocks correspond
            ax, blocks = v0.segs[0], []
            for col in zip(*[v.segs[1] for v in vs]):
                if all(b is col[0] for b in col) or all(not b.fam and b.arr.term is not None and col[0].arr.term is not None and b.arr.term.eq(col[0].arr.term)
                                                        for b in col if not col[0].fam):
                    if col[0].fam and not all(b is col[0] for b in col):
                        break
                    blocks.append(col[0])
                elif all(not b.fam and all(self.dim_eq(x, y) for x, y in zip(b.arr.shape, col[0].arr.shape)) for b in col):
                    blocks.append(Seg(self._ite_arr([(g, b.arr) for (g, _), b in zip(cases, col)])))
                else:
                    break
            else:
                segs = (ax, blocks)
        return Arr(v0.shape, fn, term, v0.kind, segs, rowfn, self._ite_write(cases), v0.dtype)

    def _ite_write(self, cases):
        """alternatives that write the same region of the same array: one write of the guarded value"""
        ms = [v.meta for _, v in cases]
        m0 = ms[0]
        if not all(m is not None and m[0] == 'write' and m[5] == 'set' for m in ms):
            return None
        for m in ms[1:]:
            if not (m[1] is m0[1] or (m[1].term is not None and m0[1].term is not None and m[1].term.eq(m0[1].term))):
                return None
            if len(m[2]) != len(m0[2]) or not all(p[0] == q[0] and all(same(x, y) for x, y in zip(p[1:3], q[1:3])) for p, q in zip(m[2], m0[2])):
                return None

        def valfn(*idx):
            r = ms[-1][3](*idx)
            for (g, _), m in reversed(list(zip(cases[:-1], ms[:-1]))):
                r = site(g, m[3](*idx), r)
            return r

        vas = [m[4] for m in ms]
        if all(isinstance(x, Arr) for x in vas):
            if not all(x.ndim == vas[0].ndim and all(self.dim_eq(a, b) for a, b in zip(x.shape, vas[0].shape)) for x in vas):
                return None
            va = self._ite_arr([(g, x) for (g, _), x in zip(cases, vas)])
        elif all(not isinstance(x, Arr) for x in vas):
            va = vas[-1]
            for (g, _), x in reversed(list(zip(cases[:-1], vas[:-1]))):
                va = site(g, x, va)
        else:
            return None
        return ('write', m0[1], m0[2], valfn, va, 'set')

    def dim_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if same(a, b):
            return True
        d = simp(zi(a) - zi(b))
        if isinstance(d, int):
            return d == 0
        return self.entails(d == 0)

    def take(self, outs, st0):
        """outcomes of a sub-exploration -> continue the current path with (kind, value); merges where possible"""
        if not outs:
            raise Infeasible()
        groups = []
        bykind = {}
        for o in outs:
            bykind.setdefault(o.kind, []).append(o)
        for kind, os_ in bykind.items():
            if kind == 'raise' or len(os_) == 1:
                groups += os_
                continue
            try:
                groups.append(self.merge_outcomes(os_, st0, kind))
            except MergeFail:
                groups += os_
        if len(groups) == 1:
            g = groups[0]
            self.st = g.state
        else:
            j = self.choose([g.guard for g in groups])
            g = groups[j]
            self.st = g.state
        return g.kind, g.value

    def resume(self, kind, value):
        if kind == 'normal':
            return value
        if kind == 'return':
            raise ReturnEx(value)
        if kind == 'break':
            raise BreakEx()
        if kind == 'continue':
            raise ContinueEx()
        if kind == 'raise':
            raise PyRaise(value)
        raise AssertionError(kind)

    def branch2(self, cond, f_then, f_else):
        """run f_then under cond / f_else under not cond, merge"""
        if isinstance(cond, bool):
            return f_then() if cond else f_else()
        c = simp(cond)
        if isinstance(c, bool):
            return f_then() if c else f_else()
        nc = z3.Not(c)
        ft, ff = self.feasible(c), self.feasible(nc)
        if not ft and not ff:
            raise Infeasible()
        if not ff:
            return f_then()
        if not ft:
            return f_else()

        def thunk():
            if self.choose([c, nc]) == 0:
                return f_then()
            return f_else()

        st0 = self.st
        outs = self.explore(thunk)
        return self.resume(*self.take(outs, st0))

    def force(self, v):
        """split a guarded union"""
        while isinstance(v, UVal):
            j = self.choose([c for c, _ in v.cases])
            v = v.cases[j][1]
        if v is UNDEF:
            raise PyRaise(ExcVal(Ext('builtins.UnboundLocalError'), ()))
        if hasattr(v, 'touch'):
            v.touch()
        return v

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.force(v)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_num(v):
            return v != 0
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if is_z3(v):
            return zb(v)
        if isinstance(v, SymStr):
            return True
        if isinstance(v, Arr):
            if all(isinstance(s, int) and s == 1 for s in v.shape):
                return self.truth(v.at(*[0] * v.ndim))
            raise PyRaise(ExcVal(Ext('builtins.ValueError'), ('ambiguous truth value', )))
        if isinstance(v, (Ref, FamRef)):
            c = self.cell(v)
            if c.kind in ('list', 'dict', 'set'):
                n = self.length(v)
                return n != 0 if isinstance(n, int) else zi(n) != 0
            if c.kind == 'np':
                return self.truth(c.arr)
            return True
        if isinstance(v, (FuncVal, BoundMethod, Native, JitFn, Ext, ExcVal, ClassVal, PartialFn)):
            return True
        if isinstance(v, Opaque):
            return z3.Function(f'truth_{v.term.sort()}', v.term.sort(), z3.BoolSort())(v.term)
        raise Unsupported(f"truth of {v!r}")

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, IterVal):
            n = 0
            for p in v.parts:
                n = sadd(n, len(p.items) if p.n is None else p.n)
            return n
        if isinstance(v, (Ref, FamRef)):
            c = self.cell(v)
            if c.kind in ('list', 'dict'):
                n = 0
                for s in c.segs:
                    if getattr(s, 'opt', None) is not None:
                        raise Unsupported("length with conditional entries")
                    n = sadd(n, s.n if s.fam else 1)
                return n
            if c.kind == 'np':
                return c.arr.shape[0]
            if c.kind == 'set':
                return len(c.items)
            if c.kind == 'obj':
                return self.call(self.getattr(v, '__len__'), [], {})
        raise Unsupported(f"len of {v!r}")

    # ------------------------------------------------------------------ attributes
    def obj_class(self, v):
        if isinstance(v, Ref):
            c = self.st.heap[v.id]
            return c.cls if c.kind == 'obj' else None
        if isinstance(v, FamRef):
            return self.st.fams[v.fid].cls
        return None

    def lookup_class_attr(self, cls, name, after=None):
        mro = cls.mro()
        start = 0
        if after is not None:
            start = mro.index(after) + 1
        for c in mro[start:]:
            if isinstance(c, ClassVal):
                if name in c.attrs:
                    return c.attrs[name], c
            else:
                r = self.libmod.ext_class_attr(self, c, name)
                if r is not None:
                    return r, c
        return None, None

    def bind_attr(self, recv, a, cls):
        if isinstance(a, PropertyVal):
            return self.call(BoundMethod(recv, a.fget), [], {})
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'static':
            return a[1]
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'classm':
            return BoundMethod(self.obj_class(recv), a[1])
        if isinstance(a, (FuncVal, Native)):
            return BoundMethod(recv, a)
        if isinstance(a, JitFn) and isinstance(a.inner, FuncVal):
            return JitFn(BoundMethod(recv, a.inner))
        return a

    def getattr(self, v, name):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.st.heap[v.id]
            if c.kind == 'obj':
                if name in c.fields:
                    fv = c.fields[name]
                    if fv is UNDEF:
                        raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (name, )))
                    if self.st.in_jit and name in self.st.ghost.get(('volatile', v.id), ()):
                        return self.stale_of((v.id, name), fv)
                    if isinstance(fv, UVal):
                        fv = self.force(fv)
                    if hasattr(fv, 'touch'):
                        fv.touch()
                    return fv
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    raise Unsupported('__dict__')
                a, owner = self.lookup_class_attr(c.cls, name)
                if owner is None:
                    raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (f"{c.cls.name}.{name}", )))
                return self.bind_attr(v, a, owner)
            return self.libmod.cell_attr(self, v, c, name)
        if isinstance(v, FamRef):
            fc = self.st.fams[v.fid]
            if fc.kind == 'obj':
                if name in fc.hooks:
                    h = fc.hooks[name]
                    idx = v.idx
                    return BoundMethod(v, Native(f"{fc.name}.{name}", lambda eng, args, kw, h=h: h(eng, args[0], args[1:], kw)))
                try:
                    return self.force(self.fam_get(v, name))
                except KeyError:
                    pass
                a, owner = self.lookup_class_attr(fc.cls, name)
                if owner is None:
                    raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (name, )))
                return self.bind_attr(v, a, owner)
            return self.libmod.cell_attr(self, v, self.fam_content(v), name)
        if isinstance(v, SuperProxy):
            cls = self.obj_class(v.recv)
            a, owner = self.lookup_class_attr(cls, name, v.after)
            if owner is None:
                if name == '__init__':
                    return Native('object.__init__', lambda eng, args, kw: None)
                raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (name, )))
            return self.bind_attr(v.recv, a, owner)
        if isinstance(v, ModuleVal):
            try:
                return self.mod_get(v, name)
            except KeyError:
                return self.module(v.name + '.' + name)
        if isinstance(v, Ext):
            return self.libmod.ext_attr(self, v, name)
        if isinstance(v, ClassVal):
            if name in ('__name__', '__qualname__'):
                return v.name
            a, owner = self.lookup_class_attr(v, name)
            if owner is None:
                raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (name, )))
            if isinstance(a, tuple) and len(a) == 2 and a[0] == 'static':
                return a[1]
            return a
        return self.libmod.value_attr(self, v, name)

    def setattr(self, v, name, val):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.st.heap[v.id]
            if c.kind != 'obj':
                raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (name, )))
            if isinstance(c.cls, ClassVal):
                a, owner = self.lookup_class_attr(c.cls, name)
                if isinstance(a, PropertyVal):
                    if a.fset is None:
                        raise PyRaise(ExcVal(Ext('builtins.AttributeError'), (name, )))
                    self.call(BoundMethod(v, a.fset), [val], {})
                    return
            c = c.copy()
            c.fields[name] = val
            self.set_cell(v, c)
            return
        if isinstance(v, FamRef):
            if self.st.in_jit:
                raise Unsupported("mutation inside jit")
            fc = self.st.fams[v.fid].copy()
            if fc.kind != 'obj':
                raise Unsupported('setattr on family cell')
            fc.over.append((v.idx, name, val))
            self.st.fams[v.fid] = fc
            return
        raise Unsupported(f"setattr on {v!r}")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.force(f)
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, BoundMethod):
            if isinstance(f.func, Native):
                return f.func.fn(self, [f.recv] + list(args), dict(kwargs))
            return self.call(f.func, [f.recv] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), dict(kwargs))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, JitFn):
            return self.call_jit(f, args, kwargs)
        if isinstance(f, PartialFn):
            return self.call(f.inner, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, VmapFn):
            return self.libmod.call_vmap(self, f, args, kwargs)
        if isinstance(f, GradFn):
            return self.libmod.call_grad(self, f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, (Ref, FamRef)):
            if isinstance(f, FamRef) and '__call__' in self.st.fams[f.fid].hooks:
                return self.call(self.getattr(f, '__call__'), args, kwargs)
            if self.obj_class(f) is not None:
                return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, AtProxy):
            raise Unsupported("call of at-proxy")
        raise Unsupported(f"call of {f!r}")

    def call_ext(self, f, args, kwargs):
        h = self.lib.get(f.path)
        if h is None:
            alt = self.libmod.canon_path(f.path)
            h = self.lib.get(alt)
        if h is None:
            h = self.libmod.ext_call_fallback(self, f)
        if h is None:
            raise Unsupported(f"no contract for external {f.path}")
        return h(self, list(args), dict(kwargs))

    def call_jit(self, f, args, kwargs):
        outer = self.st.in_jit
        if not outer:
            self.st.ghost['pre_jit_ids'] = frozenset(self.st.heap.keys()) - frozenset(self._arg_ids(args, kwargs))
        self.st.in_jit = outer + 1
        try:
            r = self.call(f.inner, [self._to_jit_arg(a) for a in args], {k: self._to_jit_arg(a) for k, a in kwargs.items()})
        finally:
            self.st.in_jit = outer
        r = self.libmod.np_to_jnp(self, r)
        return r

    def _to_jit_arg(self, a):
        """jit arguments arrive as traced jnp arrays"""
        if isinstance(a, Ref) and isinstance(self.st.heap[a.id], NpCell):
            return self.st.heap[a.id].arr.with_kind('jnp')
        if isinstance(a, tuple):
            return tuple(self._to_jit_arg(x) for x in a)
        return a

    def _arg_ids(self, args, kwargs):
        return [a.id for a in list(args) + list(kwargs.values()) if isinstance(a, Ref)]

    def instantiate(self, cls, args, kwargs):
        new = self.libmod.special_instantiate(self, cls, args, kwargs)
        if new is not None:
            return new
        ref = self.alloc(ObjCell(cls, {}))
        init, owner = self.lookup_class_attr(cls, '__init__')
        if owner is not None:
            self.call(self.bind_attr(ref, init, owner), args, kwargs)
        elif args or kwargs:
            raise PyRaise(ExcVal(Ext('builtins.TypeError'), ('takes no arguments', )))
        return ref

    def qualname(self, f):
        return f"{f.module.name}.{f.cls.name + '.' if f.cls else ''}{f.name}"

    def call_func(self, f, args, kwargs):
        q = self.qualname(f)
        if q in self.hooks_call:
            return self.hooks_call[q](self, args, kwargs)
        if self.call_depth > 60:
            raise Unsupported("recursion depth")
        node = f.node
        if isinstance(node, ast.FunctionDef):
            self.under_contract[q] = (os.path.relpath(f.module.path, self.root), node.lineno)
            for sub in ast.walk(node):
                if isinstance(sub, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator function")
        env = self.bind_args(f, args, kwargs)
        fid = self.new_env(env)
        saved = getattr(self, 'frame', None)
        fr = (fid, f.module, f)
        if isinstance(node, ast.Lambda):
            self.frame = fr
            try:
                return self.eval(node.body)
            finally:
                self.frame = saved
        st0 = self.st

        def thunk():
            self.frame = fr
            self.call_depth += 1
            self.exec_block(node.body)
            raise ReturnEx(None)

        outs = self.explore(thunk)
        self.frame = saved
        for o in outs:
            if '$parent' not in o.state.envs.get(fid, {}):
                o.state.envs.pop(fid, None)
        if all(fid not in o.state.envs for o in outs):
            st0 = st0.copy()
            st0.envs.pop(fid, None)
        kind, val = self.take(outs, st0)
        if kind == 'return':
            return val
        return self.resume(kind, val)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)

        def terr(msg):
            return PyRaise(ExcVal(Ext('builtins.TypeError'), (f"{f.name}(): {msg}", )))

        pos = list(args)
        for k, p in enumerate(params):
            if pos:
                env[p] = pos.pop(0)
                if p in kwargs:
                    raise terr(f"multiple values for {p}")
            elif p in kwargs:
                env[p] = kwargs.pop(p)
            else:
                d = k - (len(params) - len(a.defaults))
                if d < 0:
                    raise terr(f"missing argument {p}")
                env[p] = self._use_default(f.defaults[d])
        if pos:
            if a.vararg is None:
                raise terr("too many positional arguments")
            env[a.vararg.arg] = tuple(pos)
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for k, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif f.kw_defaults[k] is not None:
                env[p.arg] = self._use_default(f.kw_defaults[k][0])
            else:
                raise terr(f"missing keyword-only argument {p.arg}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(list(kwargs.items()))
        elif kwargs:
            raise terr(f"unexpected keyword arguments {list(kwargs)}")
        return env

    def _use_default(self, d):
        if isinstance(d, LazyDefault):
            raise Unsupported(f"default value: {d.msg}")
        return d

    # ------------------------------------------------------------------ names
    def lookup(self, name):
        fid, m, f = self.frame
        env = self.st.envs.get(fid, {})
        if name in env:
            v = env[name]
            if v is UNDEF:
                raise PyRaise(ExcVal(Ext('builtins.UnboundLocalError'), (name, )))
            if hasattr(v, 'touch'):
                v.touch()
            return v
        e = f.env if f is not None else None
        while e is not None:
            env2 = self.st.envs.get(e, {})
            if name in env2:
                return env2[name]
            e = env2.get('$parent')
        if f is not None and isinstance(f.node, ast.FunctionDef) and name in _locals_of(f.node):
            raise PyRaise(ExcVal(Ext('builtins.UnboundLocalError'), (name, )))
        try:
            return self.mod_get(m, name)
        except KeyError:
            pass
        if hasattr(_bi, name):
            return Ext(f"builtins.{name}")
        if name == '__name__':
            return m.name
        raise PyRaise(ExcVal(Ext('builtins.NameError'), (name, )))

    def store(self, name, v):
        self.st.envs[self.frame[0]][name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value else None)

    def x_Break(self, s):
        raise BreakEx()

    def x_Continue(self, s):
        raise ContinueEx()

    def x_Import(self, s):
        for a in s.names:
            if a.name.startswith('run_time_assurance'):
                self.store(a.asname or a.name.split('.')[0], self.module(a.name if a.asname else a.name.split('.')[0]))
            else:
                self.store(a.asname or a.name.split('.')[0], Ext(a.name if a.asname else a.name.split('.')[0]))

    def x_ImportFrom(self, s):
        for a in s.names:
            if s.module.startswith('run_time_assurance'):
                self.store(a.asname or a.name, self.mod_get(self.module(s.module), a.name))
            else:
                self.store(a.asname or a.name, Ext(f"{s.module}.{a.name}"))

    def x_Global(self, s):
        raise Unsupported("global")

    def x_Nonlocal(self, s):
        raise Unsupported("nonlocal")

    def x_FunctionDef(self, s):
        fid, m, f = self.frame
        parent = f.env if f is not None else None
        self.st.envs[fid]['$parent'] = parent
        fv = self._mkfunc(s, m, fid, None)
        for d in reversed(s.decorator_list):
            fv = self.call(self.eval(d), [fv], {})
        self.store(s.name, fv)

    def x_ClassDef(self, s):
        raise Unsupported("local class")

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))

        def bad():
            raise PyRaise(ExcVal(Ext('builtins.AssertionError'), ()))

        self.branch2(c, lambda: None, bad)

    def x_Raise(self, s):
        if s.exc is None:
            if getattr(self, '_handling', None) is not None:
                raise PyRaise(self._handling)
            raise Unsupported("bare raise")
        e = self.force(self.eval(s.exc))
        if isinstance(e, (ClassVal, Ext)):
            e = self.call(e, [], {})
        if isinstance(e, Ref):
            e = ExcVal(self.obj_class(e), self.st.heap[e.id].fields.get('args', ()))
        if s.cause is not None:
            self.eval(s.cause)
        raise PyRaise(e)

    def exc_matches(self, exc, t):
        t = self.force(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        return self.libmod.exc_issub(exc.cls, t)

    def x_Try(self, s):
        def run_body():
            try:
                self.exec_block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type)):
                        if h.name:
                            self.store(h.name, e.exc)
                        prev = getattr(self, '_handling', None)
                        self._handling = e.exc
                        try:
                            self.exec_block(h.body)
                        finally:
                            self._handling = prev
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse)

        if not s.finalbody:
            return run_body()
        st0 = self.st
        outs = self.explore(run_body)
        kind, val = self.take(outs, st0)
        self.exec_block(s.finalbody)
        return self.resume(kind, val)

    def x_With(self, s):
        for item in s.items:
            v = self.eval(item.context_expr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, self.libmod.context_enter(self, v))
            else:
                self.libmod.context_enter(self, v)
        self.exec_block(s.body)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.envs[self.frame[0]].pop(t.id, None)
            else:
                raise Unsupported("del")

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch2(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Match(self, s):
        raise Unsupported("match")

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.store(t.id, self.aug(s.op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(s.op, cur, self.eval(s.value), item=True))
        else:
            raise Unsupported("augassign target")

    def aug(self, op, cur, val, item=False):
        cur = self.force(cur)
        if isinstance(cur, (Ref, FamRef)):
            c = self.cell(cur)
            if c.kind == 'list' and isinstance(op, ast.Add):
                self.libmod.list_extend(self, cur, val)
                return cur
            if c.kind == 'np':
                r = self.binop(op, c.arr, val)
                r = self.libmod.to_arr(self, r)
                if item and c.view_of is not None:
                    return r        # x[i:j] op= v: the following item assignment writes it
                self.libmod.np_write(self, cur, r)
                return cur
        return self.binop(op, cur, val)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        else:
            raise Unsupported(f"assign target {type(t).__name__}")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(ExcVal(Ext('builtins.ValueError'), ('unpack', )))
            return list(v)
        parts = self.iter_parts(v)
        items = []
        for p in parts:
            if p.n is not None:
                if isinstance(simp(p.n), int):
                    items += [p.item(k) for k in range(simp(p.n))]
                else:
                    return [self.getitem(v, k) for k in range(n)]
            else:
                items += p.items
        if len(items) != n:
            raise PyRaise(ExcVal(Ext('builtins.ValueError'), ('unpack', )))
        return items

    def x_For(self, s):
        from .loops import exec_for
        exec_for(self, s)

    def x_While(self, s):
        from .loops import exec_while
        exec_while(self, s)

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, (bool, int, str)) or v is None or v is Ellipsis:
            return v
        if isinstance(v, bytes):
            return v
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.eval(x.value))
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.libmod.list_segs(self, self.eval(x.value))
            else:
                segs.append(ListSeg(self.eval(x)))
        return self.alloc(ListCell(segs))

    def e_Set(self, e):
        return self.alloc(SetCell([self.eval(x) for x in e.elts]))

    def e_Dict(self, e):
        r = self.alloc(DictCell([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.libmod.dict_update(self, r, self.eval(v))
            else:
                self.setitem(r, self.eval(k), self.eval(v))
        return r

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.to_str(self.eval(v.value)))
        return self.mkstr(parts)

    def e_FormattedValue(self, e):
        return self.to_str(self.eval(e.value))

    def mkstr(self, parts):
        s = SymStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return ''.join(s.parts)
        return s

    def to_str(self, v):
        v = self.force(v)
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if is_z3(v) and v.sort() == I:
            return SymStr([v])
        return SymStr([Opaque(__import__('pyver.lib', fromlist=['_sk'])._sk(self, 'str', z3.DeclareSort('Str')))])

    def e_Lambda(self, e):
        fid, m, f = self.frame
        self.st.envs[fid].setdefault('$parent', f.env if f is not None else None)
        fv = FuncVal(e, m, fid, None)
        fv.defaults = [self.eval(d) for d in e.args.defaults]
        fv.kw_defaults = [None if d is None else (self.eval(d), ) for d in e.args.kw_defaults]
        return fv

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch2(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store(e.target.id, v)
        return v

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(k):
            v = self.force(self.eval(e.values[k]))
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t == is_and:
                    return go(k + 1)
                return v
            if is_and:
                return self.branch2(t, lambda: go(k + 1), lambda: v if not is_z3(v) or v.sort() != B else False)
            return self.branch2(t, lambda: v if not is_z3(v) or v.sort() != B else True, lambda: go(k + 1))

        return go(0)

    def e_UnaryOp(self, e):
        v = self.force(self.eval(e.operand))
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else lit(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, float):
                return -v
            return self.libmod.ew1(self, v, lambda x: smul(-1, x) if not is_inf(x) else -x)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.libmod.ew1(self, v, lambda x: (not x) if isinstance(x, bool) else lit(z3.Not(zb(x))))
        raise Unsupported("unary op")

    def e_BinOp(self, e):
        l = self.eval(e.left)
        r = self.eval(e.right)
        return self.binop(e.op, l, r)

    def binop(self, op, l, r):
        return self.libmod.binop(self, op, self.force(l), self.force(r))

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, right in zip(e.ops, e.comparators):
            rv = self.eval(right)
            c = self.compare(op, left, rv)
            if res is None:
                res = c
            else:
                res = self.libmod.logical_and(self, res, c)
            left = rv
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            if isinstance(op, ast.Is):
                return r
            return (not r) if isinstance(r, bool) else lit(z3.Not(r))
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.libmod.contains(self, b, a)
            if isinstance(op, ast.In):
                return r
            return (not r) if isinstance(r, bool) else lit(z3.Not(r))
        return self.libmod.compare(self, op, a, b)

    def is_same(self, a, b):
        if isinstance(a, UVal):
            cs = [(c, self.is_same(v, b)) for c, v in a.cases]
            return simp(z3.Or(*[z3.And(c, zb(r)) for c, r in cs]))
        if isinstance(b, UVal):
            return self.is_same(b, a)
        if a is UNDEF or b is UNDEF:
            raise Unsupported("is on undefined")
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if is_z3(a) or is_z3(b):
                if (is_z3(a) and a.sort() != B) or (is_z3(b) and b.sort() != B):
                    return False
                return lit(zb(a) == zb(b))
            return a is b
        if isinstance(a, (Ref, Ext)) or isinstance(b, (Ref, Ext)):
            return a == b
        if isinstance(a, FamRef) and isinstance(b, FamRef):
            return a.fid == b.fid and lit(z3.simplify(zi(a.idx) == zi(b.idx)))
        return a is b

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.frame[2]
            if e.args:
                cls = self.eval(e.args[0])
                recv = self.eval(e.args[1])
            else:
                g = f
                recv = self.st.envs[self.frame[0]][f.node.args.args[0].arg]
                cls = g.cls
            return SuperProxy(recv, cls)
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.eval(a.value))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.cell(self.force(self.eval(k.value)))
                for sg in d.segs:
                    if sg.fam or not isinstance(sg.key, str):
                        raise Unsupported("** of symbolic dict")
                    kwargs[sg.key] = sg.val
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(fn, args, kwargs)

    def concrete_items(self, v):
        v = self.force(v)
        out = []
        for p in self.iter_parts(v):
            if p.n is not None:
                n = simp(p.n) if not isinstance(p.n, str) else p.n
                if isinstance(n, int):
                    out += [p.item(k) for k in range(n)]
                else:
                    raise Unsupported("symbolic-length sequence expanded")
            else:
                out += p.items
        return out

    def e_Subscript(self, e):
        o = self.eval(e.value)
        return self.getitem(o, self.eval_index(e.slice))

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    def e_Slice(self, s):
        return SliceV(self.eval(s.lower) if s.lower else None, self.eval(s.upper) if s.upper else None, self.eval(s.step) if s.step else None)

    def getitem(self, o, k):
        return self.libmod.getitem(self, self.force(o), self.force(k))

    def setitem(self, o, k, v):
        return self.libmod.setitem(self, self.force(o), self.force(k), v)

    def e_Starred(self, e):
        raise Unsupported("starred")

    # comprehensions: executed as loops through a synthetic body
    def e_ListComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'list')

    def e_SetComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'list')

    def e_GeneratorExp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'list')

    def e_DictComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'dict')

    # ------------------------------------------------------------------ iteration
    def iter_parts(self, v):
        v = self.force(v)
        return self.libmod.iter_parts(self, v)

    # ------------------------------------------------------------------ top level
    def run(self, thunk):
        """all outcomes of a harness"""
        return self.explore(thunk)


class LazyDefault:
    def __init__(self, node, msg):
        self.node, self.msg = node, msg


_loc_cache = {}


def _locals_of(fn):
    k = id(fn)
    if k not in _loc_cache:
        s = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
        # comprehension targets are not function locals, approximated as locals only if assigned elsewhere
        comp = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.comprehension):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        comp.add(t.id)
        _loc_cache[k] = s - comp
    return _loc_cache[k]


_q_cache = {}


def _has_quant(e):
    k = e.get_id()
    if k in _q_cache:
        return _q_cache[k][0]
    seen = set()
    stack = [e]
    r = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x) and not x.is_lambda():
            r = True
            break
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    _q_cache[k] = (r, e)
    return r
