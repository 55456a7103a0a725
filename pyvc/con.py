"""Contract registry shared by the prover (python3-vt) and by the concrete
evaluator (/opt/venv python).  Imports neither z3 nor tensorflow."""
import importlib


class Contract:
    """one contract: `fn(env)` states, over the inputs it draws from `env`
    (preconditions) and the code it runs, the obligations (postconditions).

    mode 'both'  - discharged symbolically, and evaluated on the real code for
                   replay;
         'proof' - symbolic only;
         'run'   - only evaluated on the real code (a bounded stand-in).
    """

    def __init__(self, name, fn, funcs, bounded=None, ensures='', time=60, paths=4000, mode='both', trials=None, fuel=None):
        self.name, self.fn, self.funcs = name, fn, list(funcs)
        self.bounded = bounded      # text: why the proof is for a bounded shape only
        self.ensures = ensures
        self.time, self.paths, self.mode, self.trials = time, paths, mode, trials


def contract(registry, funcs, name=None, bounded=None, time=60, paths=4000, mode='both', trials=None):
    def deco(fn):
        n = name or fn.__name__
        if any(c.name == n for c in registry):
            raise RuntimeError('duplicate contract ' + n)
        registry.append(Contract(n, fn, funcs if isinstance(funcs, (list, tuple)) else [funcs],
                                 bounded, ensures=' '.join((fn.__doc__ or '').split()), time=time, paths=paths,
                                 mode=mode, trials=trials))
        return fn
    return deco


def load_contracts(modname):
    return importlib.import_module('contracts.' + modname).CONTRACTS
