#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

1. parse /repo's current source, execute the functions under contract symbolically and discharge every obligation (z3, cvc5)
2. evaluate the same contracts on the real code (monitor) for replay, cross-check and as labelled bounded stand-in
exit 0: held; exit 1 + VIOLATION line: broken."""
from __future__ import annotations
import argparse
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))


def work(job):
    """one case: unbounded, then bounded where the unbounded run is not fully proved"""
    idx, timeout, budget = job
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from contracts import framework as fw
    p, n, fn, modes = fw.CASES[idx]
    out = []
    for m in modes:
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(int(budget))
            r = fw.run_case(p, n, fn, m, timeout, budget)
        except TimeoutError:
            r = dict(property=p, case=n, mode=m, obligations=[], error='case time budget exceeded', functions={}, assumed={}, vacuous=False, solver_s=0.0,
                     loops_summarised=0, loops_unrolled=0, wall_s=budget)
        except MemoryError:
            r = dict(property=p, case=n, mode=m, obligations=[], error='case memory budget exceeded', functions={}, assumed={}, vacuous=False, solver_s=0.0,
                     loops_summarised=0, loops_unrolled=0, wall_s=0)
        finally:
            signal.alarm(0)
        out.append(r)
        if not r['error'] and not r['vacuous'] and all(o['status'] == 'proved' for o in r['obligations']):
            break
    return out


def _alarm(*a):
    raise TimeoutError()


def monitor_cmd(prop, seed, tier, out):
    env = dict(os.environ, JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO, XLA_FLAGS='--xla_cpu_multi_thread_eigen=false',
               OMP_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3')
    return subprocess.Popen([VENV, os.path.join(HERE, 'monitor', 'run.py'), prop, '--seed', str(seed), '--tier', tier, '--out', out], env=env, cwd='/tmp',
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def monitor_wait(proc, out, limit):
    try:
        txt, _ = proc.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return dict(violations=[], monitors=[], checks=0, errors=[dict(what='monitor time limit')], import_errors=[], wall_s=limit)
    if not os.path.exists(out):
        return dict(violations=[], monitors=[], checks=0, errors=[dict(what='monitor crashed', details=txt[-2000:])], import_errors=[], wall_s=0, crashed=True)
    r = json.load(open(out))
    os.unlink(out)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    mout = os.path.join(EVID, f'.mon_{prop}_{os.getpid()}.json')
    mproc = monitor_cmd(prop, seed, tier, mout)

    from contracts import framework as fw, load
    load.load_all()
    idxs = [i for i, c in enumerate(fw.CASES) if c[0] == prop]
    timeout, budget = (8000, 150) if tier == 'quick' else (30000, 600)
    results = []
    if idxs:
        with mp.get_context('fork').Pool(min(7, len(idxs)), maxtasksperchild=4) as pool:
            asy = [(i, pool.apply_async(work, ((i, timeout, budget), ))) for i in idxs]
            lim = t0 + (600 if tier == 'quick' else 3000)
            for i, r in asy:
                try:
                    results.append((fw.CASES[i][1], r.get(max(1.0, lim - time.time()))))
                except mp.TimeoutError:
                    results.append((fw.CASES[i][1], [dict(mode='U', obligations=[], error='time limit', functions={}, assumed={}, vacuous=False, solver_s=0,
                                                         loops_summarised=0, loops_unrolled=0, wall_s=0)]))
                except Exception as e:
                    results.append((fw.CASES[i][1], [dict(mode='U', obligations=[], error=f'worker: {type(e).__name__}: {e}', functions={}, assumed={},
                                                         vacuous=False, solver_s=0, loops_summarised=0, loops_unrolled=0, wall_s=0)]))
    mres = monitor_wait(mproc, mout, 700 if tier == 'quick' else 3300)

    nob = ndis = 0
    proved_u, proved_b, undecided, refuted = [], [], [], []
    funcs, assumed, solver_s, backends = {}, {}, 0.0, {}
    samples = []
    for name, runs in results:
        final = runs[-1]
        if len(runs) > 1 and final['error'] and not runs[0]['error']:
            final = runs[0]
        for r in runs:
            funcs.update(r['functions'])
            for k, v in r['assumed'].items():
                assumed[k] = assumed.get(k, 0) + v
            solver_s += r['solver_s']
        if final['error'] or final['vacuous']:
            undecided.append(dict(case=name, reason=final['error'] or 'vacuous', runs=[dict(mode=r['mode'], error=r['error']) for r in runs]))
            continue
        nob += len(final['obligations'])
        bad = [o for o in final['obligations'] if o['status'] != 'proved']
        for o in final['obligations']:
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
        if len(samples) < 6 and final['obligations']:
            samples.append(dict(case=name, mode=final['mode'], obligation=final['obligations'][0]['name'], backend=final['obligations'][0]['backend']))
        if not bad:
            (proved_u if final['mode'] == 'U' else proved_b).append(name)
            continue
        real = [o for o in bad if o['status'] == 'refuted' and ': no ' not in o['name']]
        if real and (final['mode'] == 'B' or len(runs) == 1):
            refuted.append(dict(case=name, mode=final['mode'], obligations=real))
        else:
            undecided.append(dict(case=name, reason='not discharged', obligations=[dict(name=o['name'], status=o['status'], backend=o['backend']) for o in bad],
                                  runs=[dict(mode=r['mode'], error=r['error']) for r in runs]))

    # an obligation refuted or no longer discharged, without a failing input: search deeper before giving up
    extra = 0
    if (refuted or undecided) and not mres['violations']:
        seeds = (seed + 101, seed + 202, seed + 303)
        procs = [(monitor_cmd(prop, s_, 'thorough', f'{mout}.{s_}'), f'{mout}.{s_}') for s_ in seeds]
        lim = time.time() + (240 if tier == 'quick' else 900)
        for p_, f_ in procs:
            mr = monitor_wait(p_, f_, max(1.0, lim - time.time()))
            extra += mr.get('checks', 0)
            if mr['violations'] and not mres['violations']:
                mres = dict(mr, monitors=mres['monitors'] + mr['monitors'])

    viol = bool(mres['violations'] or refuted)
    lines = []
    if viol:
        rp = os.path.join(EVID, 'replays', f'{prop}.json')
        d = dict(property=prop, failed_obligations=refuted, failing_input=mres['violations'][0] if mres['violations'] else None,
                 all_failing=mres['violations'], repo=REPO,
                 how_to_replay=f"JAX_PLATFORMS=cpu {VENV} {HERE}/monitor/run.py {prop} --replay {rp}" if mres['violations'] else
                 f"python3-vt {HERE}/check.py {prop}   (re-generates and refutes the named obligations)")
        json.dump(d, open(rp, 'w'), indent=1)
        tail = '' if mres['violations'] else ' no-failing-input-found'
        for v in mres['violations'][:5]:
            lines.append(f"  contract broken: {v['monitor']}: {v['what']}")
        for r in refuted[:5]:
            lines.append(f"  obligation failed: {r['obligations'][0]['name']} ({r['mode']})")
        lines.append(f"VIOLATION property={prop} replay={rp}{tail}")
    else:
        rp = os.path.join(EVID, 'replays', f'{prop}.json')
        if os.path.exists(rp):
            os.unlink(rp)

    total_cases = len(results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=LEVELS.get(prop, 'proof'),
        coverage=dict(
            obligations=nob, discharged=ndis, checker_cmd=f"python3-vt check.py {prop} --tier {tier}",
            trusted_base=sorted(f"assumed contract: {k} (used {v}x)" for k, v in assumed.items()) + [
                'pyver: the symbolic executor in /verif/pyver (Python semantics of the executed subset)', 'z3, cvc5',
                'array elements treated as mathematical reals', 'jax.jit: pure trace of the function, attributes frozen at trace time'],
            functions_under_contract=funcs, cases_total=total_cases, cases_proved_unbounded=proved_u, cases_proved_bounded_dimensions=proved_b,
            cases_undecided=undecided, refuted=[r['case'] for r in refuted], back_ends=backends, solver_s=round(solver_s, 2), samples=samples,
            evaluations=mres.get('checks', 0) + extra, rule='contract evaluations on the real code with seeded inputs (bounded; used for replay and as stand-in)',
            monitors=mres.get('monitors', []), monitor_errors=mres.get('errors', []) + [dict(what=e) for e in mres.get('import_errors', [])]),
        assumptions=['floating point rounding is not modelled by the obligations', 'external solver and integrator contracts are assumed as listed in trusted_base'],
        wall_s=round(time.time() - t0, 2), violations=(len(mres['violations']) + len(refuted)))
    json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1)
    print(f"{prop}: obligations {ndis}/{nob} discharged in {total_cases} cases (unbounded {len(proved_u)}, bounded dims {len(proved_b)}, undecided {len(undecided)}, "
          f"refuted {len(refuted)}); monitor {mres.get('checks', 0)} checks, {len(mres['violations'])} violations; {ev['wall_s']}s")
    for u in undecided:
        print('  undecided:', u['case'], '|', u['reason'], json.dumps(u.get('obligations', u.get('runs')))[:300])
    for l in lines:
        print(l)
    if viol:
        sys.exit(1)
    # no verdict at all: neither obligations nor monitor ran
    if ndis == 0 and mres.get('checks', 0) == 0:
        print('no answer: nothing could be checked')
        sys.exit(2)
    sys.exit(0)


LEVELS = {}
try:
    LEVELS = {c['property']: c['level'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
except Exception:
    pass

if __name__ == '__main__':
    main()
