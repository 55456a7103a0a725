#!/usr/bin/env python3
"""plant.py SPEC.py...: turn bug descriptions into seeded/<id>/ (development aid).

A description defines ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO (python source).
The demonstration is confirmed in a scratch copy; then the check is run there."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/rbp'
STUB = '''"""stand-ins for packages this machine does not have"""
import sys
import types
if 'getclass' not in sys.modules:
    m = types.ModuleType('getclass')
    m.getclass = lambda o: o if isinstance(o, type) else type(o)
    sys.modules['getclass'] = m
try:
    import icecube  # noqa
except ImportError:
    class Any:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return Any
    ice = types.ModuleType('icecube')
    ice.__path__ = []
    for sub in ('dataclasses', 'icetray', 'dataio', 'simclasses', 'MuonGun', 'phys_services', 'hdfwriter', 'tableio', 'astro'):
        s = types.ModuleType('icecube.' + sub)
        s.__getattr__ = lambda n: type(n, (Any,), {})
        setattr(ice, sub, s)
        sys.modules['icecube.' + sub] = s
    ice.icetray.I3ConditionalModule = type('I3ConditionalModule', (), {'__init__': lambda self, ctx: None})
    sys.modules['icecube'] = ice
    for n in ('I3Tray', 'icetray_'):
        sys.modules.setdefault(n, types.ModuleType(n))
'''
SH = '''#!/bin/bash
# exit 0: the property holds for this example; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
scratch="$(mktemp -d)"
trap 'rm -rf "${scratch:?}"' EXIT
export MPLCONFIGDIR="$scratch/mpl" SCRATCH="$scratch"
/opt/venv/bin/python -W ignore "$here/demo.py"
'''


def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', SCR])


def demo(d):
    p = subprocess.run(['bash', d + '/demo.sh'], cwd=SCR, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout[-1500:]


def main():
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        d = os.path.join(HERE, 'seeded', ns['ID'])
        fresh()
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(('import stubs  # noqa\n' if ns.get('STUBS', True) else '') + ns['DEMO'].lstrip('\n'))
        if ns.get('STUBS', True):
            open(d + '/stubs.py', 'w').write(STUB)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        rc, out = demo(d)
        if rc:
            print(ns['ID'], 'demo fails on the unchanged tree', out)
            continue
        edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
        bad = False
        for fn, old, new in edits:
            p = os.path.join(SCR, 'egenerator', fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['ID'], 'old text occurs %d times' % s.count(old))
                bad = True
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        diff = subprocess.check_output(['git', 'diff'], cwd=SCR, text=True)
        open(d + '/patch.diff', 'w').write(diff)
        rc, out = demo(d)
        if rc == 0:
            print(ns['ID'], 'demo passes with the change')
            continue
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        print(ns['ID'], 'planted; demo:', out.strip().splitlines()[-1][:150])
        subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'catches.py'), ns['ID']])


main()
