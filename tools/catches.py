#!/usr/bin/env python3
"""catches.py [ID...]: apply every planted bug to a scratch copy, run the check of
its property there, and record what it says (development aid; for DESIGN.md)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def judge(d):
    prop = json.load(open(d + '/meta.json'))['property']
    scr = tempfile.mkdtemp(prefix='catches')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', scr + '/r'])
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=scr + '/r')
        p = subprocess.run(['python3-vt', 'check.py', prop], cwd=HERE, env=dict(os.environ, VERIF_REPO=scr + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    lines = p.stdout.strip().splitlines()
    why = [x.replace('  failed: ', '') for x in lines if x.startswith('  failed: ')]
    if p.returncode != 1 or not why:
        return 'missed'
    return why[0] + (' (no failing input)' if lines[-1].endswith('no-failing-input-found') else ' (with a failing input)')


def main():
    rf = HERE + '/tools/seeded_results.json'
    ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
    for i in ids:
        d = '%s/seeded/%s' % (HERE, i)
        if not os.path.exists(d + '/patch.diff'):
            continue
        r = judge(d)
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[i] = r
        json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
        print(i, r, flush=True)


main()
