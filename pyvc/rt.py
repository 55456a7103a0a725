"""Concrete evaluation of the contracts on the real code.

The same contract functions that the prover executes symbolically are run here
with real numpy / tensorflow on drawn inputs.  This replays refuted obligations
and is the bounded stand-in where the prover does not reach; it is never counted
as a proof.

    /opt/venv/bin/python -m pyvc.rt P06 [--only NAME] [--seed 1] [--trial K]
"""
import json
import os
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
for k, v in dict(CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg', PYTHONHASHSEED='0',
                 TF_NUM_INTEROP_THREADS='1', TF_NUM_INTRAOP_THREADS='1', OMP_NUM_THREADS='1').items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import types
import warnings
warnings.simplefilter('ignore')
import numpy as np


def install_stubs():
    """stand-ins for the two packages this sandbox does not have"""
    if 'getclass' not in sys.modules:
        m = types.ModuleType('getclass')

        def getclass(obj):
            return obj if isinstance(obj, type) else type(obj)
        m.getclass = getclass
        sys.modules['getclass'] = m
    try:
        import icecube  # noqa
    except ImportError:
        from pyvc import ice
        for n, m in ice.make().items():
            sys.modules.setdefault(n, m)


class Discard(BaseException):
    """a drawn input violates the precondition"""


class CEnv:
    is_concrete = True

    def __init__(self, rng, given=None):
        self.rng, self.given = rng, given or {}
        self.choices, self.cover, self.trace = None, None, []
        self._undo = []
        self._single = False
        self.inputs = {}
        self.failures = []
        self.evals = 0
        self._mods = {}

    # --- the code under contract
    def mod(self, name):
        import importlib
        return importlib.import_module('egenerator.' + name if name else 'egenerator')

    @property
    def np(self):
        return np

    @property
    def tf(self):
        import tensorflow as tf
        return tf

    def lib(self, name):
        import importlib
        return importlib.import_module(name)

    # --- inputs
    def _log(self, name, v):
        n = name
        k = 1
        while n in self.inputs:
            n = '%s!%d' % (name, k)
            k += 1
        self.inputs[n] = v
        return n

    def _num(self, n=None):
        r = self.rng
        u = r.uniform()
        scale = [1., 3., 10.][r.randint(3)]
        if u < .15:
            return float(r.choice([0., 1., -1., .5, 2.]))
        if u < .6:
            return float(r.uniform(0, 1) * scale)
        return float(r.uniform(-1, 1) * scale)

    def real(self, name, *conds):
        for _ in range(100):
            v = self._num()
            if name in self.given:
                v = self.given[name]
            if all(bool(c(v)) for c in conds):
                self._log(name, v)
                return v
        raise Discard()

    def pos(self, name):
        v = abs(self._num()) + float(self.rng.choice([.05, .3, 1.]))
        self._log(name, v)
        return v

    def between(self, name, lo, hi):
        v = float(self.rng.choice([self.rng.uniform(lo, hi), lo, hi, .5 * (lo + hi)], p=[.7, .1, .1, .1]))
        self._log(name, v)
        return v

    def int(self, name, lo=None, hi=None):
        if lo is None and hi is None:
            lo, hi = -3, 7
        elif lo is None:
            lo = hi - 8
        elif hi is None:
            hi = lo + (5 if self.rng.uniform() < .8 else 9)
        if hi <= lo:
            raise Discard()
        v = int(self.rng.randint(lo, hi))
        self._log(name, v)
        return v

    def finite(self):
        pass

    def _pick(self, name, n):
        """an alternative: least often explored after the same choices first"""
        if self.choices is not None and len(self.trace) < len(self.choices):
            i = self.choices[len(self.trace)]
        elif self.cover is None:
            i = self.rng.randint(n)
        else:
            path = tuple(self.trace)
            i = min(self.rng.permutation(n), key=lambda q: (self.cover.get(path + (q,), 0), self.cover.get((name, q), 0)))
            for k in (path + (i,), (name, i)):
                self.cover[k] = self.cover.get(k, 0) + 1
        self.trace.append(int(i))
        return int(i)

    def flag(self, name):
        v = bool(self._pick(name, 2))
        self._log(name, v)
        return v

    def choose(self, name, options):
        options = list(options)
        v = options[self._pick(name, len(options))]
        self._log(name, v if isinstance(v, (int, float, str, bool, type(None))) else repr(v))
        return v

    def _draw(self, shape, kind, lo, hi, strict):
        r = self.rng
        size = int(np.prod(shape)) if len(shape) else 1
        if kind == 'b':
            v = r.uniform(size=size) < r.choice([.1, .5, .9])
        elif kind == 'i':
            a = -3 if lo is None else lo
            b = (a + 8) if hi is None else hi
            if b <= a:
                if size:
                    raise Discard()
                b = a + 1
            v = r.randint(a, b, size=size)
        else:
            if lo is not None and hi is not None:
                v = r.uniform(float(lo), float(hi), size=size)
                if not strict:
                    sel = r.uniform(size=size)
                    v = np.where(sel < .05, lo, np.where(sel > .95, hi, v))
            elif lo is not None:
                v = float(lo) + np.abs(np.array([self._num() for _ in range(size)]))
                if strict:
                    v = v + .1
            elif hi is not None:
                v = float(hi) - np.abs(np.array([self._num() for _ in range(size)])) - (.1 if strict else 0)
            else:
                v = np.array([self._num() for _ in range(size)], dtype=float)
                if r.uniform() < .25 and size:       # ties
                    v = r.choice(v[:max(1, min(3, size))], size=size)
        return np.reshape(v, shape)

    def _tensor(self, name, shape, kind, np_like, lo=None, hi=None, strict=False, dtype=None):
        shape = tuple(int(d) for d in shape)
        v = self._draw(shape, kind, lo, hi, strict)
        dt = dtype or {'f': 'float64' if np_like else 'float32', 'i': 'int64' if np_like else 'int32', 'b': 'bool'}[kind]
        v = v.astype(dt if isinstance(dt, str) else getattr(dt, 'as_numpy_dtype', dt))
        self._log(name, v)
        if np_like:
            return v
        return self.tf.constant(v)

    def tensor(self, name, shape, np_like=False, lo=None, hi=None, strict=False, dtype=None):
        return self._tensor(name, shape, 'f', np_like, lo, hi, strict, dtype)

    def arr(self, name, shape, **k):
        return self.tensor(name, shape, np_like=True, **k)

    def ints(self, name, shape, lo=None, hi=None, np_like=False, dtype=None):
        return self._tensor(name, shape, 'i', np_like, lo, hi, dtype=dtype)

    def bools(self, name, shape, np_like=False):
        return self._tensor(name, shape, 'b', np_like)

    def positive(self, t):
        if isinstance(t, np.ndarray):
            return np.abs(t) + .1
        return self.tf.abs(t) + .1

    def index(self, name, n):
        return self.int(name, 0, int(n))

    def ref(self, t):
        """reference value: the same value in double precision numpy"""
        if hasattr(t, 'numpy'):
            t = t.numpy()
        t = np.asarray(t)
        if t.dtype.kind == 'f' and t.dtype.itemsize <= 4:
            self._single = True
        return t.astype(float) if t.dtype.kind == 'f' else t

    def assume(self, c):
        if not bool(np.all(np.asarray(c))):
            raise Discard()

    # --- obligations
    def _record(self, name, ok, detail=''):
        self.evals += 1
        if not ok:
            self.failures.append(dict(obligation=name, detail=detail))
        return ok

    def prove(self, name, goal, **k):
        return self._record(name, bool(np.all(np.asarray(goal))), 'goal is %s' % str(np.asarray(goal))[:300])

    def concrete(self, name, ok, detail=''):
        return self._record(name, bool(ok), str(detail)[:600])

    def _tol(self, a, b):
        ks = [x.dtype for x in (a, b) if x.dtype.kind == 'f']
        if any(k.itemsize <= 4 for k in ks):
            return 2e-3, 2e-4
        if self._single:        # computed from references to single precision values
            return 2e-4, 1e-6
        return 1e-6, 1e-8

    def equal(self, name, a, b, rtol=None, atol=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self._record(name, False, 'shape %s, expected %s' % (a.shape, b.shape))
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            rt, at = self._tol(a, b)
            a, b = a.astype(float), b.astype(float)
            with np.errstate(all='ignore'):
                ok = np.isclose(a, b, rtol=rtol or rt, atol=atol or at, equal_nan=True)
        else:
            ok = a == b
        if np.all(ok):
            return self._record(name, True)
        i = tuple(int(x[0]) for x in np.where(~np.atleast_1d(ok)))
        return self._record(name, False, 'at %s: got %r, expected %r' % (i, np.atleast_1d(a)[i], np.atleast_1d(b)[i]))

    def leq(self, name, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        ok = a <= b + 1e-4 * np.maximum(1., np.abs(b))
        if np.all(ok):
            return self._record(name, True)
        i = tuple(int(x[0]) for x in np.where(~np.atleast_1d(ok)))
        return self._record(name, False, 'at %s: %r <= %r is false' % (i, np.atleast_1d(a)[i], np.atleast_1d(b)[i]))

    def deriv(self, f, x):
        """five point difference of f at x (double precision)"""
        isn = isinstance(x, (np.ndarray, float))
        x = self.ref(x)
        h = 1e-4
        g = (lambda y: np.asarray(f(y))) if isn else (lambda y: np.asarray(f(self.tf.constant(y))))
        return (8 * (g(x + h) - g(x - h)) - (g(x + 2 * h) - g(x - 2 * h))) / (12 * h)

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            return self._record(name, True)
        except Exception as e:
            return self._record(name, False, 'raised %s: %s' % (type(e).__name__, str(e)[:200]))
        return self._record(name, False, 'nothing was raised')

    def long_ranges(self):
        pass

    solver_first = long_ranges

    def patch(self, obj, name, value):
        if isinstance(obj, dict):
            self._undo.append((obj, name, obj.get(name), name in obj))
            obj[name] = value
            return
        self._undo.append((obj, name, obj.__dict__.get(name, None), name in obj.__dict__))
        setattr(obj, name, value)

    def undo(self):
        for obj, name, old, had in reversed(self._undo):
            if isinstance(obj, dict):
                if had:
                    obj[name] = old
                else:
                    obj.pop(name, None)
            elif had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._undo = []


def short(v):
    if isinstance(v, np.ndarray):
        return dict(shape=list(v.shape), values=np.asarray(v).ravel()[:24].tolist())
    return v


def exc_detail(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    loc = ['%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in tb][-5:]
    return '%s: %s [%s]' % (type(exc).__name__, str(exc)[:300], ' '.join(loc))


def run_trial(con, seed, trial, given=None, cover=None, choices=None):
    """-> (failures, evals, inputs) or None if discarded"""
    import zlib
    s = zlib.crc32(('%s|%s|%s' % (seed, con.name, trial)).encode()) & 0x7fffffff
    env = CEnv(np.random.RandomState(s), given)
    env.trial, env.seed = trial, s
    env.cover, env.choices = cover, choices
    np.random.seed(s)
    try:
        con.fn(env)
    except Discard:
        return None if not env.failures else (env.failures, env.evals, env.inputs, env.trace)
    except KeyboardInterrupt:
        raise
    except Exception as exc:
        if any(k.__name__ == 'OutsideContract' for k in type(exc).__mro__) or 'OutsideContract' in str(exc):
            return None
        env._record('no unexpected exception', False, exc_detail(exc))
    finally:
        env.undo()
    return env.failures, env.evals, env.inputs, env.trace


def run_contract(con, seed, trials, budget, first=0, given=None, choices=None):
    t0 = time.time()
    cover = {}
    res = dict(name=con.name, mode=con.mode, trials=0, discarded=0, evaluations=0, failures=[], samples=[], funcs=con.funcs)
    t = first
    while t < first + trials and (time.time() - t0 < budget or t < first + 2):
        r = run_trial(con, seed, t, given if t == first else None, cover, choices)
        if t == first:            # the first one loads the libraries
            start, t0 = t0, time.time()
        t += 1
        if r is None:
            res['discarded'] += 1
            continue
        fails, ev, inputs, trace = r
        res['trials'] += 1
        res['evaluations'] += ev
        if len(res['samples']) < 1:
            res['samples'].append({k: short(v) for k, v in list(inputs.items())[:12]})
        if fails:
            for f in fails:
                if len(res['failures']) < 40:
                    res['failures'].append(dict(f, trial=t - 1, seed=seed, choices=trace, inputs={k: short(v) for k, v in inputs.items()}))
            if len(res['failures']) >= 3:
                break
    res['wall'] = time.time() - (start if t > first else t0)
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('--exact', help='comma separated contract names')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--trial', type=int)
    ap.add_argument('--choices', help='with --trial: the alternatives taken, comma separated')
    ap.add_argument('--trials', type=int, default=60)
    ap.add_argument('--budget', type=float, default=8)
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--json')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    install_stubs()
    from . import con as C
    cons = [c for c in C.load_contracts(a.prop) if c.mode != 'proof']
    if a.only:
        cons = [c for c in cons if a.only in c.name]
    if a.exact:
        cons = [c for c in cons if c.name in a.exact.split(',')]
    i, n = (int(x) for x in a.shard.split('/'))
    cons = cons[i::n]
    out = []
    import logging
    logging.disable(logging.CRITICAL)
    devnull = open(os.devnull, 'w')
    stdout = sys.stdout
    for c in cons:
        trials = a.trials if c.trials is None else max(1, int(c.trials * a.trials / 60.))
        if not a.v:
            sys.stdout = devnull
        try:
            if a.trial is not None:
                r = run_contract(c, a.seed, 1, a.budget, first=a.trial, choices=[int(x) for x in a.choices.split(',') if x] if a.choices is not None else None)
            else:
                r = run_contract(c, a.seed, trials, a.budget)
        finally:
            sys.stdout = stdout
        out.append(r)
        if not a.json:
            print('%-50s trials=%d discarded=%d evals=%d wall=%.1fs %s' % (c.name, r['trials'], r['discarded'], r['evaluations'], r['wall'], 'FAIL' if r['failures'] else ''))
            for f in r['failures'][:(40 if a.v else 4)]:
                print('    trial %s: %s: %s' % (f['trial'], f['obligation'], f['detail']))
                if a.v:
                    print('      inputs', str(f['inputs'])[:3000])
    if a.json:
        with open(a.json, 'w') as fh:
            json.dump(out, fh, default=str)


if __name__ == '__main__':
    main()
