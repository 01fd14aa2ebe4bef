"""Concrete contract monitor: the contracts of /verif/contracts evaluated on the real code with seeded inputs.

Used to (a) find and replay a failing input for an obligation the verifier rejects, (b) stand in, labelled bounded,
for obligations the verifier cannot reach, (c) cross-check the verifier against CPython."""
from __future__ import annotations
import json
import os
import sys
import time
import warnings
import numpy as np

ROOT = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('MPLBACKEND', 'Agg')

MONS = []


def mon(props, name, n=1, thorough=None):
    """register a monitor: fn(rng, rep, it) executed for it in range(n)"""
    def deco(fn):
        for p in ([props] if isinstance(props, str) else props):
            MONS.append((p, name, fn, n, thorough or 4 * n))
        return fn
    return deco


class Violation(Exception):
    pass


def js(v):
    try:
        import jax.numpy as jnp
        if isinstance(v, (np.ndarray, jnp.ndarray)):
            return np.asarray(v).tolist()
    except Exception:
        pass
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, dict):
        return {str(k): js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


class Rep:
    def __init__(self):
        self.checks = 0
        self.ctx = {}

    def set(self, **kw):
        self.ctx.update(kw)

    def clear(self):
        self.ctx = {}

    def check(self, cond, what, **kw):
        self.checks += 1
        if not bool(cond):
            raise Violation(json.dumps({'what': what, 'details': js(kw), 'input': js(self.ctx)}))

    def close(self, a, b, what, rtol=2e-4, atol=2e-4, **kw):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a.shape == b.shape and bool(np.all((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))
        self.check(ok, what, got=a, expected=b, **kw)

    def same(self, a, b, what, **kw):
        a, b = np.asarray(a), np.asarray(b)
        self.check(a.shape == b.shape and bool(np.all(a == b)), what, got=a, expected=b, **kw)


def run(prop, seed, tier, only=None, budget=600):
    out = dict(property=prop, violations=[], monitors=[], checks=0, errors=[])
    t0 = time.time()
    for p, name, fn, n, nt in MONS:
        if p != prop or (only and only[0] != name):
            continue
        its = range(n if tier == 'quick' else nt)
        if only:
            its = [only[1]]
        rep = Rep()
        t1 = time.time()
        done = 0
        for it in its:
            if time.time() - t0 > budget:
                break
            rep.clear()
            rng = np.random.default_rng([seed, it, sum(name.encode())])
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    fn(rng, rep, it)
                done += 1
            except Violation as e:
                d = json.loads(str(e))
                d.update(monitor=name, iteration=it, seed=seed)
                out['violations'].append(d)
                break
            except Exception as e:      # the real code raised where the contract forbids it, or an API is gone
                import traceback
                tb = traceback.format_exc()
                inrepo = [ln for ln in tb.splitlines() if ROOT + '/run_time_assurance' in ln or '/run_time_assurance/' in ln and '/verif/' not in ln]
                d = dict(what=f'unexpected {type(e).__name__}: {e}'[:300], details={'traceback': tb.splitlines()[-12:]}, input=js(rep.ctx), monitor=name,
                         iteration=it, seed=seed, exception=True, in_repo=bool(inrepo))
                if not _raised_in_repo(e):
                    out['errors'].append(d)
                else:
                    out['violations'].append(d)
                break
        out['checks'] += rep.checks
        out['monitors'].append(dict(name=name, iterations=done, checks=rep.checks, wall_s=round(time.time() - t1, 2)))
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def _raised_in_repo(e):
    """innermost frame of the traceback lies in the code under test"""
    tb = e.__traceback__
    last = None
    seen = False
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        seen = seen or '/run_time_assurance/' in last
        tb = tb.tb_next
    return seen
