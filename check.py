#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough]

Decides one property on /repo's current working tree:
  1. the prover (pyvc.spec) regenerates and discharges every obligation of
     contracts/Pxx.py from the current source;
  2. the same contracts are evaluated on the real, running code (pyvc.rt): this
     replays refuted obligations and stands in (labelled bounded) where the
     prover does not reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

TRUSTED = [
    'pyvc: symbolic executor, loop rule and ring normaliser in /verif/pyvc',
    'z3 4.x (python3-vt z3-solver)',
    'models of numpy/tensorflow/tfp/scipy/pandas operations in /verif/pyvc/tensor.py and models.py (each contract is also evaluated against the real libraries)',
]
ASSUME = [
    'machine arithmetic is treated as mathematical: floats are reals, fixed-width integers are unbounded; rounding, overflow and NaN propagation are outside the proof',
    'divisions are verified under a non-zero divisor; exp, log, sqrt, erf, lgamma, sin, cos are uninterpreted with algebraic axioms',
    'getclass and icecube are not installed: getclass.getclass is the class of its argument, icecube types are inert stand-ins in concrete runs',
]


def rt_cmd(prop, out, seed, trials, budget, shard='0/1', exact=None):
    cmd = [PY, '-W', 'ignore', '-m', 'pyvc.rt', prop, '--json', out, '--seed', str(seed), '--trials', str(trials),
           '--budget', str(budget), '--shard', shard]
    if exact:
        cmd += ['--exact', ','.join(exact)]
    return cmd


def rt_env(tmp):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), MPLCONFIGDIR=os.path.join(tmp, 'mpl'),
             HOME=tmp, TMPDIR=tmp, PYTHONPATH=HERE, PYTHONHASHSEED='0')
    return e


def run_concrete(prop, tmp, seed, trials, budget, nshard, deadline, exact=None):
    procs = []
    for i in range(nshard):
        out = os.path.join(tmp, 'rt_%s_%d_%d.json' % (prop, seed, i))
        err = open(out + '.err', 'w')
        procs.append((out, subprocess.Popen(rt_cmd(prop, out, seed, trials, budget, '%d/%d' % (i, nshard), exact),
                                            cwd=tmp, env=rt_env(tmp), stdout=err, stderr=err, stdin=subprocess.DEVNULL)))
    return procs


def collect(procs, deadline):
    res, notes = [], []
    for out, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            notes.append('concrete shard exceeded its time')
        if os.path.exists(out):
            res += json.load(open(out))
        else:
            notes.append('concrete shard gave no result: ' + open(out + '.err').read()[-500:])
    return res, notes


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hard = t0 + (600 if tier == 'quick' else 3000)
    quick = tier == 'quick'
    from pyvc import con as C
    cons = C.load_contracts(prop)
    by = {c.name: c for c in cons}
    with tempfile.TemporaryDirectory(prefix='verif_') as tmp:
        nrt = min(4, max(1, (len([c for c in cons if c.mode != 'proof']) + 2) // 3))
        procs = run_concrete(prop, tmp, seed, 60 if quick else 600, 8 if quick else 90, nrt, hard)
        from pyvc import spec
        proofs = spec.run_all(prop, workers=5, timeout=120 if quick else 600)
        conc, notes = collect(procs, hard - 120)
        if notes and not conc:     # one retry: a loaded machine is not a verdict
            conc, n2 = collect(run_concrete(prop, tmp, seed, 30, 8, nrt, hard), hard - 60)
            notes += n2
        refuted = {}
        for r in proofs:
            bad = [o for o in r['obligations'] if o['status'] == 'refuted']
            if bad:
                refuted[r['name']] = bad
        failed = {r['name']: r for r in conc if r['failures']}
        # refuted or undecided: look harder for a failing input
        undecided = [r['name'] for r in proofs if r['unsupported'] or any(o['status'] != 'proved' for o in r['obligations'])]
        deeper = [n for n in by if (n in refuted or n in undecided) and n not in failed and by[n].mode == 'both']
        if deeper:
            more, n2 = collect(run_concrete(prop, tmp, seed + 1000, 600, 30, min(6, len(deeper)), hard, exact=deeper), hard - 30)
            notes += n2
            for r in more:
                if r['failures']:
                    failed[r['name']] = r
    ks = known(prop)

    def is_known(contract, obligation):
        for k in ks:
            if k['contract'] == contract and k['obligation'] in (obligation, '*'):
                return k
        return None

    rep_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    violations, seen_known = [], {}
    names = [n for n in by if n in failed or n in refuted]
    for n in names:
        fl = [f for f in failed.get(n, {}).get('failures', [])]
        rf = list(refuted.get(n, []))
        kept_f, kept_r = [], []
        for f in fl:
            k = is_known(n, f['obligation'])
            if k:
                seen_known[k['id']] = k
            else:
                kept_f.append(f)
        for o in rf:
            k = is_known(n, o['name'])
            if k:
                seen_known[k['id']] = k
            else:
                kept_r.append(o)
        if not kept_f and not kept_r:
            continue
        path = os.path.join(rep_dir, '%s_%s.json' % (prop, n))
        rec = dict(property=prop, contract=n, functions=by[n].funcs, ensures=by[n].ensures,
                   failed_obligations=kept_r, failing_inputs=kept_f)
        if kept_f:
            f = kept_f[0]
            rec['replay'] = 'cd %s && %s -m pyvc.rt %s --exact %s --seed %s --trial %s --choices %s -v' % (
                HERE, PY, prop, n, f['seed'], f['trial'], ','.join(map(str, f.get('choices', []))) or "''")
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1, default=str)
        ob = (kept_r or [{}])[0].get('name') or kept_f[0]['obligation']
        violations.append((path, bool(kept_f), n, ob))

    obs = [o for r in proofs for o in r['obligations']]
    disc = [o for o in obs if o['status'] == 'proved']
    backs = {}
    for o in disc:
        backs[o['backend']] = backs.get(o['backend'], 0) + 1
    full = [r['name'] for r in proofs if r['obligations'] and not r['unsupported'] and all(o['status'] == 'proved' for o in r['obligations'])]
    stats = {}
    for r in proofs:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
    out_of_reach = {r['name']: (r['unsupported'] or ['%d obligations undecided' % len([o for o in r['obligations'] if o['status'] not in ('proved', 'refuted')])])[:2]
                    for r in proofs if r['name'] not in full and r['name'] not in refuted}
    runonly = [c.name for c in cons if c.mode == 'run']
    samples = [dict(contract=r['name'], inputs=r['samples'][0]) for r in conc if r.get('samples')][:3]
    unb = {c.name for c in cons if not c.bounded}
    shape = [o for r in proofs if r['name'] not in unb for o in r['obligations']]
    level = 'proof' if any(c.mode != 'run' for c in cons if c.name in unb) else 'other'
    cov = dict(
        obligations=len(obs) - len(shape), discharged=len(disc) - sum(o['status'] == 'proved' for o in shape),
        obligations_bounded_shape=len(shape), discharged_bounded_shape=sum(o['status'] == 'proved' for o in shape), checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED, back_ends=backs, solver_time_s=round(sum(o['time'] for o in obs), 3), solver_stats=stats,
        functions_under_contract=sorted({f for r in proofs if r['name'] in full for f in by[r['name']].funcs}),
        contracts_proved=full, paths=sum(r['paths'] for r in proofs),
        proved_for_bounded_shape={n: by[n].bounded for n in full if by[n].bounded},
        bounded_stand_ins={n: 'evaluated on the real code only (not proved)' for n in runonly},
        beyond_reach_this_run=out_of_reach,
        functions_bounded_only=sorted({f for n in runonly + list(out_of_reach) for f in by[n].funcs}),
        evaluations=sum(r['evaluations'] for r in conc), distinct_nontrivial=sum(r['trials'] for r in conc),
        rule='concrete evaluation: inputs drawn per contract from its preconditions by a seeded generator; a trial counts when no precondition was violated',
        samples=samples or [dict(obligation=o['name']) for o in disc[:3]], notes=notes)
    if level == 'other':
        cov['explanation'] = ('every obligation generated from the contracts is discharged for all values, but all contracts of this property fix the '
                              'size of some structure (proved_for_bounded_shape)')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)

    print('%s: %d/%d obligations discharged in %d contracts (%d fully proved), %d concrete evaluations, %.1fs' % (
        prop, len(disc), len(obs), len(proofs), len(full), cov['evaluations'], time.time() - t0))
    for n, why in out_of_reach.items():
        print('  not proved this run (bounded stand-in only): %s: %s' % (n, str(why)[:300]))
    for x in notes:
        print('  note:', x[:500])
    for k in ks:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for path, found, n, ob in violations:
        print('  failed: contract %s, obligation %s' % (n, ob))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    sys.stdout.flush()
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
