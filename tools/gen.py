"""Writes properties.jsonl and MANIFEST.json from tools/props.py.  A property is
claimed when contracts/<id>.py exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import con
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['forall']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=sorted({w.split(':')[0] for _, w in p['where']}),
                              mechanism=[dict(name=n, where=w) for n, w in p['where']]))
        f.write(json.dumps(d) + '\n')


def level(i):
    """level and note from the contracts themselves"""
    cs = con.load_contracts(i)
    free = [c.name for c in cs if not c.bounded and c.mode != 'run']
    bound = {}
    for c in cs:
        if c.bounded and c.mode != 'run':
            bound.setdefault(c.bounded, []).append(c.name)
    run = [c.name for c in cs if c.mode == 'run']
    note = ''
    if free:
        note += 'Proved for all inputs without a bound: %s. ' % ', '.join(free)
    for b, ns in bound.items():
        note += 'Proved for all values at a bounded size (%s): %s. ' % (b, ', '.join(ns))
    if run:
        note += 'Evaluated on the real code only, not proved: %s. ' % ', '.join(run)
    return ('proof' if free else 'other'), note


checks, na = [], []
for p in props.PROPS:
    i = p['id']
    if os.path.exists('%s/contracts/%s.py' % (V, i)):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='contracts on the real Python functions, proved by a verification-condition generator (z3 + ring normalisation)',
                           level=level(i)[0], level_note=level(i)[1] + p.get('note', props.NOTE)))
    else:
        na.append(dict(property=i, reason=p.get('na', 'no contract built yet')))
m = dict(version=1, setup_cmd='python3-vt -m pyvc.selftest', checks=checks, not_applicable=na,
         notes='All checks: python3-vt check.py <id>; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
