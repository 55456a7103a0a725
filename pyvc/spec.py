"""Contracts: registration and execution of the proof side."""
import importlib
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import z3
from . import sym, loader, models, prover, tensor as tn
from .sym import S, Unsupported, Report, explore
from .autodiff import calculus
from .con import Contract, contract, load_contracts  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')


class Env:
    """what a contract sees: the loaded code, fresh values, obligations"""
    is_concrete = False

    def __init__(self, world, c):
        self.w, self.c = world, c
        self._undo = []

    def mod(self, name):
        return self.w.load('egenerator.' + name)

    @property
    def np(self):
        return self.w.models['numpy']

    @property
    def tf(self):
        return self.w.models['tensorflow']

    # inputs
    def real(self, name, *conds):
        r = self.c.real(name)
        for c in conds:
            self.c.assume(c(r))
        return r

    def pos(self, name):
        return self.real(name, lambda x: x > 0)

    def int(self, name, lo=None, hi=None):
        return self.c.int(name, lo, hi)

    def finite(self):
        """precondition: every input is a finite number"""
        self.c.finite = True

    def flag(self, name):
        return self.c.flag(name)

    def choose(self, name, options):
        return self.c.choose(name, options)

    def between(self, name, lo, hi):
        return self.real(name, lambda x: x >= lo, lambda x: x <= hi)

    def ref(self, t):
        """reference value (identical here; double precision in concrete runs)"""
        return t

    def lib(self, name):
        m = self.w.models[name.split('.')[0]] if name not in self.w.models else self.w.models[name]
        if name not in self.w.models:
            for p in name.split('.')[1:]:
                m = getattr(m, p)
        return m

    def tensor(self, name, shape, sort=sym.RS, np_like=False, lo=None, hi=None, strict=False, dtype=None):
        t = tn.fresh_tensor(name, shape, sort, np_like=np_like, dtype=dtype or ('float32' if sort == sym.RS and not np_like else None))
        if lo is not None or hi is not None:
            self.bound(t, lo, hi, strict)
        return t

    def arr(self, name, shape, sort=sym.RS, **k):
        return self.tensor(name, shape, sort, np_like=True, **k)

    def ints(self, name, shape, lo=None, hi=None, np_like=False, dtype=None):
        return self.tensor(name, shape, sym.IS, np_like, lo, hi, dtype=dtype)

    def bools(self, name, shape, np_like=False):
        return self.tensor(name, shape, sym.BS, np_like)

    def bound(self, t, lo=None, hi=None, strict=False):
        """precondition lo <= t < hi (ints) / lo < t (strict) pointwise"""
        idx = [z3.Int('?x%d' % i) for i in range(t.ndim)]
        v = t.at(*idx)
        cs = []
        if lo is not None:
            cs.append(sym.e_lt(sym.to_z3(lo), v) if strict else sym.e_le(sym.to_z3(lo), v))
        if hi is not None:
            cs.append(sym.e_lt(v, sym.to_z3(hi)) if t.sort() == sym.IS else sym.e_le(v, sym.to_z3(hi)))
        e = z3.And(*cs)
        if idx:
            self.c.assume_fact(z3.ForAll(idx, e, patterns=[v]))
            if lo is not None and sym.const_num(sym.to_z3(lo)) is not None:
                n = t.name
                if not hasattr(self.c, 'positive_funs'):
                    self.c.positive_funs = set()
                if strict and sym.const_num(sym.to_z3(lo)) >= 0 or sym.const_num(sym.to_z3(lo)) > 0:
                    self.c.positive_funs.add(n)
        else:
            self.c.assume(S(e))

    def positive(self, t):
        self.bound(t, 0, strict=True)
        return t

    def index(self, name, n):
        """an arbitrary index 0 <= i < n"""
        return self.c.int(name, 0, n)

    def assume(self, c):
        if isinstance(c, tn.T):
            c = c.item_scalar()
        self.c.assume(c)

    # obligations
    def prove(self, name, goal):
        if isinstance(goal, tn.T):
            if goal.shape_ == ():
                goal = goal.item_scalar()
            else:
                idx = [self.index('ob_i', d) for d in goal.shape_]
                goal = S(sym.as_bool(goal.at(*[i.e for i in idx])))
        return self.c.prove(name, goal)

    def equal(self, name, a, b, rtol=None, atol=None):
        """same shape and pointwise equal"""
        ta, tb = tn.as_t(a), tn.as_t(b)
        ok = ta.ndim == tb.ndim
        if ok:
            for x, y in zip(ta.shape_, tb.shape_):
                if tn.dim_same(x, y) is not True:
                    ok = False
        if not ok:
            return self.c.prove(name + ':shape %s=%s' % (ta.shape_, tb.shape_), False)
        idx = []
        for d in ta.shape_:
            idx.append(0 if isinstance(d, int) and d == 1 else self.index('ob_i', d).e)
        return self.c.prove(name, S(sym.e_eq(ta.at(*idx), tb.at(*idx))))

    def leq(self, name, a, b):
        ta, tb = tn.as_t(a), tn.as_t(b)
        return self.prove(name, ta <= tb)

    def concrete(self, name, ok, detail=''):
        """obligation decided by the (path) execution itself"""
        return self.c.prove(name, bool(ok))

    def deriv(self, f, x):
        """pointwise derivative of f(x) with respect to the input x"""
        tx, tf_ = tn.as_t(x), tn.as_t(f(x))

        def fn(*idx):
            return calculus(tf_.at(*idx), tx.at(*idx))
        return tn.T(tf_.shape_, fn, 'float64', True)

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            return self.c.prove(name, True)
        except (Unsupported, sym.Infeasible):
            raise
        except Exception as e:
            if outside_contract(e):
                raise
            check_engine_fault(e, traceback.extract_tb(e.__traceback__))
            return self.c.prove(name + ' (%s)' % type(e).__name__, False)
        return self.c.prove(name, False)

    def solver_first(self):
        """obligations of this contract are linear: try z3 on the path
        condition before anything else"""
        self.c.solver_first = 4000

    def long_ranges(self):
        """loops over fixed ranges of at least 32 are executed with the loop
        rule where that is possible"""
        self.c.long_ranges = True

    def patch(self, obj, name, value):
        if isinstance(obj, dict):
            self._undo.append((obj, name, obj.get(name), name in obj))
            obj[name] = value
            return
        self._undo.append((obj, name, obj.__dict__.get(name, None), name in obj.__dict__))
        setattr(obj, name, value)

    def undo(self):
        for obj, name, old, had in reversed(self._undo):
            if isinstance(obj, dict):
                if had:
                    obj[name] = old
                else:
                    obj.pop(name, None)
            elif had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._undo = []


def outside_contract(exc):
    return any(k.__name__ == 'OutsideContract' for k in type(exc).__mro__)


EXPLICIT = (ValueError, IndexError, KeyError, AssertionError, NotImplementedError, models.InvalidArgument)


def check_engine_fault(exc, tb):
    """an exception raised inside the models by an unmodelled use is a limit of
    the verifier, not of the code"""
    last = tb[-1].filename if tb else ''
    inside = '/pyvc/' in last or '/z3/' in last or '/contracts/' in last
    if isinstance(exc, TypeError) and '<locals>' in str(exc) and ('argument' in str(exc)):
        inside = True     # a library model without that parameter
    if isinstance(exc, TypeError) and '__array_ufunc__' in str(exc):
        inside = True     # a plain array is changed in place by symbolic values
    if isinstance(exc, (z3.Z3Exception, RecursionError, MemoryError)) or (inside and not isinstance(exc, EXPLICIT)):
        raise Unsupported('engine: %s: %s at %s:%s' % (type(exc).__name__, str(exc)[:200], last.split('/')[-1], tb[-1].lineno if tb else 0)) from exc


def run_contract(con, timeout=None):
    """-> dict of results for one contract"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    rep = Report()
    res = dict(name=con.name, funcs=con.funcs, bounded=con.bounded, ensures=con.ensures)
    st0 = dict(prover.STATS)
    try:
        world = loader.World(REPO, models.make_models())
        lim = con.time if timeout is None else min(con.time, timeout)

        def run(c):
            env = Env(world, c)
            try:
                con.fn(env)
                rep.outcomes.append('normal')
            except (Unsupported, sym.Infeasible):
                raise
            except Exception as exc:
                if outside_contract(exc):
                    raise Unsupported(str(exc)) from exc
                tb = traceback.extract_tb(exc.__traceback__)
                check_engine_fault(exc, tb)
                loc = ['%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in tb][-4:]
                c.prove('no unexpected exception: %s: %s [%s]' % (type(exc).__name__, str(exc)[:120], ' '.join(loc)), False)
            finally:
                env.undo()
        explore(run, rep, max_paths=con.paths, deadline=time.time() + lim)
    except Unsupported as exc:
        rep.unsupported.append('load: %s' % exc)
    except Exception as exc:
        rep.unsupported.append('engine: %s: %s' % (type(exc).__name__, exc))
        res['traceback'] = traceback.format_exc()[-2000:]
    res['obligations'] = [o.as_dict() for o in rep.obligations]
    res['paths'] = rep.paths
    res['unsupported'] = rep.unsupported
    res['wall'] = time.time() - t0
    res['stats'] = {k: prover.STATS[k] - st0[k] for k in st0}
    return res


def _child(modname, cname, conn, timeout):
    try:
        signal.alarm(int(timeout) + 30)
        cons = load_contracts(modname)
        con = [c for c in cons if c.name == cname][0]
        conn.send(run_contract(con, timeout))
    except BaseException as exc:   # noqa
        try:
            conn.send(dict(name=cname, funcs=[], bounded=None, ensures='', obligations=[], paths=0,
                           unsupported=['engine: %r' % (exc,)], wall=0, stats={}))
        except Exception:
            pass
    finally:
        conn.close()


def run_all(modname, workers=8, timeout=60, only=None):
    cons = [c for c in load_contracts(modname) if c.mode != 'run']
    if only:
        cons = [c for c in cons if only in c.name]
    pending = list(cons)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < workers:
            con = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(modname, con.name, b, min(timeout, con.time)))
            p.start()
            b.close()
            running[con.name] = (p, a, time.time(), con)
        time.sleep(0.02)
        for n in list(running):
            p, a, t, con = running[n]
            if a.poll():
                try:
                    out[n] = a.recv()
                except EOFError:
                    out[n] = dead(con, 'worker died')
                p.join()
                del running[n]
            elif not p.is_alive():
                out[n] = dead(con, 'worker died')
                del running[n]
            elif time.time() - t > min(timeout, con.time) + 25:
                p.kill()
                p.join()
                out[n] = dead(con, 'time limit')
                del running[n]
    return [out[c.name] for c in cons]


def dead(con, why):
    return dict(name=con.name, funcs=con.funcs, bounded=con.bounded, ensures=con.ensures, obligations=[], paths=0,
                unsupported=[why], wall=0, stats={})


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--inproc', action='store_true')
    a = ap.parse_args()
    if a.inproc:
        res = [run_contract(c) for c in load_contracts(a.prop) if not a.only or a.only in c.name]
    else:
        res = run_all(a.prop, only=a.only)
    for r in res:
        obs = r['obligations']
        bad = [o for o in obs if o['status'] != 'proved']
        print('%-50s obs=%d proved=%d paths=%d wall=%.1fs %s' % (
            r['name'], len(obs), len(obs) - len(bad), r['paths'], r['wall'], 'UNSUPPORTED' if r['unsupported'] else ''))
        for u in r['unsupported'][:4]:
            print('    unsupported:', u[:400])
        if r.get('traceback') and a.v:
            print(r['traceback'])
        for o in (obs if a.v else bad)[:12]:
            print('    %-9s %-8s %.2fs %s %s %s' % (o['status'], o['backend'], o['time'], o['name'], o['path'][:20], str(o['detail'])[:300]))


if __name__ == '__main__':
    main()
