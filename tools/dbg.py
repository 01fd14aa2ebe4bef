"""debug: run cases of a property.  dbg.py C01 [casefilter] [modes]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from contracts import framework as fw
from contracts import load
load.load_all()
flt = sys.argv[2] if len(sys.argv) > 2 else ''
modes = sys.argv[3] if len(sys.argv) > 3 else 'UB'
for p, n, fn, ms in fw.CASES:
    if p != sys.argv[1] or flt not in n:
        continue
    for m in ms:
        if m not in modes:
            continue
        r = fw.run_case(p, n, fn, m)
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        print(m, n, 'ERR ' + r['error'] if r['error'] else f"{len(r['obligations']) - len(bad)}/{len(r['obligations'])}", 'VACUOUS' if r['vacuous'] else '', f"{r['wall_s']}s", f"loops {r['loops_summarised']}/{r['loops_unrolled']}")
        for o in bad[:int(os.environ.get('NB', '4'))]:
            print('    ', o['status'], o['backend'], o['name'], o['time'])
            if os.environ.get('V'):
                print(o.get('goal'), '\n', o.get('model'))
