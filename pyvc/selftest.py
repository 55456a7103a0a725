"""setup: the prover must prove a true contract and refute false ones, and the
interpreter of the real code must evaluate them likewise."""
import os
import subprocess
import sys


def main():
    from . import spec, con
    cons = {c.name: c for c in con.load_contracts('selfcheck')}
    for n, c in cons.items():
        r = spec.run_contract(c)
        st = {o['status'] for o in r['obligations']}
        want = {'proved'} if n == 'good' else {'refuted'}
        if st != want or r['unsupported']:
            print('self test: contract %s gave %s %s' % (n, st, r['unsupported']))
            return 1
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pyvc.rt', 'selfcheck'], cwd=here, capture_output=True, text=True).stdout
    lines = {l.split()[0]: 'FAIL' in l for l in out.splitlines() if 'trials=' in l}
    if lines != dict(good=False, bad=True, bad_tail=True):
        print('self test: concrete evaluation gave', lines)
        return 1
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    print('self test passed')
    return 0


if __name__ == '__main__':
    sys.exit(main())
