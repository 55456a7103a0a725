"""fills the generated parts of DESIGN.md from the contracts, known_findings.json and seeded/"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import props
from pyvc import con


def part(s, tag, text):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + text.strip() + '\n' + s[j:]


def clean(d):
    return ' '.join((d or '').split())


out = []
for p in props.PROPS:
    i = p['id']
    out.append('### %s %s\n\n%s\n' % (i, p['title'], p['statement']))
    if not os.path.exists('%s/contracts/%s.py' % (V, i)):
        out.append('Not claimed: %s\n' % p.get('na', 'no contract built yet'))
        continue
    cs = con.load_contracts(i)
    out.append('Functions: ' + ', '.join('`%s`' % f for f in sorted({f for c in cs for f in c.funcs})) + '.\n')
    for c in cs:
        out.append('* **%s**%s%s: %s.' % (c.name, ' (bounded: %s)' % c.bounded if c.bounded else '',
                                          ' (evaluated only, not proved)' if c.mode == 'run' else '', clean(c.fn.__doc__).rstrip('.')))
    out.append('')
s = open(V + '/DESIGN.md').read()
s = part(s, 'contracts', '\n'.join(out))
k = json.load(open(V + '/known_findings.json'))
s = part(s, 'fixed', '\n'.join('* ' + (f if isinstance(f, str) else json.dumps(f)).replace('fixed: property=', '') for f in k['fixed']))
rows = ['| bug | property | breaks | needs | caught |', '|---|---|---|---|---|']
res = {}
if os.path.exists(V + '/tools/seeded_results.json'):
    res = json.load(open(V + '/tools/seeded_results.json'))
for d in sorted(os.listdir(V + '/seeded')):
    f = '%s/seeded/%s/meta.json' % (V, d)
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], clean(m['what_it_breaks']), clean(m['needs']), res.get(d, '')))
s = part(s, 'seeded', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
