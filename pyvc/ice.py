"""Inert stand-in for the icecube package, which is not installed: every name
is a type of its own, created once, without behaviour."""
import types

SUBS = ('dataclasses', 'icetray', 'dataio', 'simclasses', 'MuonGun', 'phys_services', 'hdfwriter', 'tableio', 'astro')


class Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any


class Sub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        t = type(n, (Any,), {})
        setattr(self, n, t)
        return t


def make():
    """{module name: module}"""
    ice = types.ModuleType('icecube')
    ice.__path__ = []
    out = {'icecube': ice}
    for sub in SUBS:
        s = Sub('icecube.' + sub)
        setattr(ice, sub, s)
        out['icecube.' + sub] = s
    ice.icetray.I3ConditionalModule = type('I3ConditionalModule', (), {'__init__': lambda self, ctx=None: None})
    for n in ('I3Tray', 'icetray_'):
        out[n] = types.ModuleType(n)
    return out
