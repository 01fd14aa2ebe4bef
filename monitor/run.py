"""run.py PROP --seed N --tier quick|thorough --out FILE [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from monitor import common

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--tier', default='quick')
ap.add_argument('--out')
ap.add_argument('--replay')
ap.add_argument('--only')
a = ap.parse_args()
d = os.path.dirname(os.path.abspath(__file__))
errs = []
for f in sorted(os.listdir(d)):
    if f.startswith('m_') and f.endswith('.py'):
        try:
            importlib.import_module('monitor.' + f[:-3])
        except Exception as e:
            errs.append(f"{f}: {type(e).__name__}: {e}")
only = None
seed = a.seed
if a.replay:
    r = json.load(open(a.replay))
    r = r.get('failing_input', r)
    only, seed = (r['monitor'], r['iteration']), r['seed']
if a.only:
    common.MONS[:] = [m for m in common.MONS if a.only in m[1]]
res = common.run(a.prop, seed, a.tier, only)
res['import_errors'] = errs
if a.out:
    json.dump(res, open(a.out, 'w'))
else:
    print(json.dumps(res, indent=1))
sys.exit(1 if res['violations'] else 0)
