"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("contract-based deductive verification: the functions of /repo are parsed on every run and executed symbolically function by function (pyver), "
     "each contract becomes obligations discharged by z3 / cvc5; a failed obligation is replayed on the real code by the contract monitor")
PROVED = {
 'C01': 'unbounded in control dimension, constraints and values; limits as None/number/list/array',
 'C02': 'unbounded', 'C03': 'unbounded; buffer identities from the heap model',
 'C04': 'unbounded number of constraints and dimensions, uninterpreted dynamics', 'C05': 'unbounded, also in the number of look-ahead steps',
 'C06': 'unbounded; latch counter in real arithmetic', 'C07': 'unbounded; jit modelled as trace with frozen attributes',
 'C08': 'unbounded number of constraints, arbitrary name list (membership); given orders of names for three constraints (bounded)', 'C09': 'unbounded; quadprog contract assumed',
 'C10': 'unbounded; quadprog contract assumed', 'C11': 'unbounded; quadprog contract assumed',
 'C12': 'unbounded in dimensions, constraints, window length; dynamics, controller and constraints uninterpreted; quadprog contract assumed',
 'C13': 'unbounded, arbitrary configuration per constraint (row selection); within the whole filter for two uniform configurations, unbounded window',
 'C14': 'unbounded in controls, states, constraints; dynamics and constraints uninterpreted; scipy minimize and odeint contracts assumed',
 'C15': 'unbounded number of members', 'C17': 'unbounded', 'C18': 'unbounded', 'C19': 'unbounded',
 'C16': 'unbounded in the number of agents; per-agent filter uninterpreted',
 'C21': 'every mass, mean motion, step, state and control; numerical integrators assumed; multi-agent dynamics for 1 to 4 and 6 agents (bounded)',
 'C22': 'every state and parameter, unbounded coast horizon; deputies 1 and 2',
 'C23': 'every option value; multi-agent filter for 1 to 3 agents',
 'C24': 'unbounded prediction length; gains arbitrary',
 'C25': 'episodes of any length, any number of constraints, arbitrary filter, plant and stopping rule (partial correctness); the report file for 1 and 2 episodes (bounded)',
 'C27': 'every state, mass and mean motion; Riccati solver uninterpreted',
 'C20': 'unbounded except the third-order barrier construction (bounded dimensions)', 'C26': 'unbounded in the element values',
}
OTHER = {}
NA = {}
try:
    from mk_extra import PROVED2, OTHER2, NA2
    PROVED.update(PROVED2); OTHER.update(OTHER2); NA.update(NA2)
except ImportError:
    pass
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROVED or i in OTHER:
        lvl = 'proof' if i in PROVED else 'other'
        note = PROVED.get(i) or OTHER.get(i)
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                           technique=T, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'contracts for this property are not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string())"', checks=checks, not_applicable=na,
               notes='see DESIGN.md; no hooks in /repo, only fix: commits (known_findings.txt)'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
