"""P04: life cycle and storage of components."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, same, deep
from contracts.tree import World
CONTRACTS = []
B = 'manager.component.BaseComponent.'
LIFE = [B + f for f in ('__init__', 'configure', '_check_member_attributes', '_get_untracked_member_attributes', 'is_configured', 'configuration', 'data', 'sub_components', 'untracked_data')]
C = 'manager.component.Configuration.'


@contract(CONTRACTS, LIFE, bounded='up to 2 sub components and 3 further arguments', trials=40)
def configured_once(env):
    """a component is unusable before it is configured, can be configured only
    once, and then holds what the configuration returned"""
    w = World(env)
    K = w.classes['A']
    x = K()
    env.concrete('initially empty', x.is_configured is False and x.configuration is None and x.data is None and x.sub_components == {} and x.untracked_data == {})
    env.raises('cannot be saved', ValueError, lambda: x.save(w.disk.path('x')))
    env.concrete('nothing is written', w.disk.listing() == [])
    if env.flag('untracked attribute'):
        K.shared = 0
        setattr(x, env.choose('attribute', ['more', 'shared']), 1)
        env.raises('untracked attributes are rejected', ValueError, lambda: x.configure(setting=1))
        env.raises('also when loading', ValueError, lambda: x.load(w.disk.path('x')))
        env.concrete('still not configured', x.is_configured is False)
        return
    sub, sub2 = w.new('B'), w.new('C')
    subs = env.choose('sub components', ['none', 'two', 'not a dictionary', 'missing'])
    data = env.choose('data', ['dictionary', 'none', 'wrong'])
    form = env.choose('arguments', ['direct', 'dictionary', 'list', 'two lists', 'a list after a part'])
    v, u = env.real('v'), env.real('u')
    S = {'none': {}, 'two': {'p': sub, 'q': sub2}, 'not a dictionary': [sub], 'missing': None}[subs]
    D = {'dictionary': {'a': v, 'b': [u]}, 'none': None, 'wrong': [v]}[data]
    conf = w.m.Configuration(class_string='A', settings={'setting': v}, mutable_settings={'free': u}, logger=NullLog())
    conf0 = conf.dict
    K._configure = lambda self, **k: (conf, D, S)
    args = {'direct': dict(p=sub, q=sub2), 'dictionary': dict(all={'p': sub, 'q': sub2}), 'list': dict(c=[sub, sub2]),
            'two lists': dict(c=(sub,), d=[sub2]), 'a list after a part': dict(p=sub, c=[sub2])}[form]
    names = {'list': ['c_0000', 'c_0001'], 'two lists': ['c_0000', 'd_0000'], 'a list after a part': ['p', 'c_0000']}.get(form, ['p', 'q'])
    run = lambda: x.configure(setting=v, free=u, **args)
    if subs == 'not a dictionary' or data == 'wrong':
        env.raises('wrong type', (TypeError, KeyError), run)
        env.concrete('not configured', x.is_configured is False)
        return
    if subs == 'two' and 'list' in form:
        env.raises('sub components that were not handed over', KeyError, run)
        env.concrete('not configured', x.is_configured is False)
        return
    run()
    env.concrete('configured', x.is_configured is True and x.configuration is conf)
    same(env, 'data', x.data, {} if D is None else D)
    env.concrete('sub components', sorted(x.sub_components) == sorted(S or {}) and all(x.sub_components[k] is S[k] for k in (S or {})))
    want = dict(conf0, sub_component_configurations=dict(zip(names, [sub.configuration.dict, sub2.configuration.dict])), dependent_sub_components=sorted(S or {}))
    got = x.configuration.dict
    got['dependent_sub_components'] = sorted(got['dependent_sub_components'])
    same(env, 'configuration', got, want)
    before = (x.configuration, x.data, x.sub_components)
    env.raises('only once', ValueError, lambda: x.configure(setting=v, free=u))
    env.raises('not loaded either', ValueError, lambda: x.load(w.disk.path('x')))
    env.concrete('unchanged', (x.configuration, x.data, x.sub_components) == before)


@contract(CONTRACTS, [B + 'configure'], bounded='one sub component', trials=20)
def arguments(env):
    """every argument has to be recorded with its value in the configuration,
    and sub components have to be configured"""
    w = World(env)
    K = w.classes['A']
    v, u = env.real('v'), env.real('u')
    conf = w.m.Configuration(class_string='A', settings={'setting': v, 'd': {'e': v}, 'l': [v, 1]}, logger=NullLog())
    K._configure = lambda self, **k: (conf, {}, {})
    x = K()
    case = env.choose('case', ['value', 'nested', 'list', 'missing', 'sub', 'sub in list', 'sub in dictionary'])
    raw = w.classes['B']()
    if case.startswith('sub'):
        at = env.choose('position', [0, 1, 3]) if ' ' in case else 0
        kind = env.choose('kind', [list, tuple]) if 'list' in case else list
        k = {'sub': dict(s=raw), 'sub in list': dict(s=kind([w.new('C') for i in range(at)] + [raw] + [w.new('C')])),
             'sub in dictionary': dict(s=dict({'a%d' % i: w.new('C') for i in range(at)}, b=raw, c=w.new('C')))}[case]
        env.raises('unconfigured sub component', ValueError, lambda: x.configure(setting=v, **k))
        env.concrete('not configured', x.is_configured is False)
        return
    if case == 'missing':
        env.raises('argument missing in the configuration', ValueError, lambda: x.configure(setting=v, other=u))
        env.concrete('not configured', x.is_configured is False)
        return
    k = {'value': dict(setting=u), 'nested': dict(d={'e': u}), 'list': dict(l=[u, 1])}[case]
    try:
        x.configure(**k)
        ok = True
    except ValueError:
        ok = False
    env.concrete('configured if accepted', x.is_configured is ok)
    if env.is_concrete:
        env.concrete('accepted exactly if recorded', ok == (u == v))
    else:
        env.prove('accepted exactly if recorded', (u == v) if ok else ~(u == v))


def tree(env, w):
    """a component tree of up to depth 3"""
    shape = env.choose('tree', ['leaf', 'pair', 'deep'])
    if shape == 'leaf':
        return w.new('A'), ['']
    if shape == 'pair':
        return w.new('A', {'p': w.new('B'), 'q': w.new('B')}, mutable=['q']), ['', 'p', 'q']
    return w.new('C', {'p': w.new('B', {'r': w.new('A'), 's': w.new('B')}), 'q': w.new('A')}), ['', 'p', 'q', 'p/r', 'p/s']


STORE = LIFE + [B + 'save', B + 'load', C + '__init__', C + 'dict']


@contract(CONTRACTS, STORE, bounded='trees up to depth 3', trials=30)
def saved_and_restored(env):
    """loading a saved component gives an equal one, at every level"""
    w = World(env)
    x, dirs = tree(env, w)
    env.choose('extension', [0])
    name = env.choose('path', ['model', 'model.v1', 'some/new/dir'])
    base = {'model': 'model', 'model.v1': 'model', 'some/new/dir': 'some/new/dir'}[name]
    x.save(w.disk.path(name), extra=3)
    j = lambda *p: '/'.join(q for q in p if q)
    env.concrete('one record and one data file per component', w.disk.listing() == sorted(j(base, d, f) for d in dirs for f in ('configuration.yaml', 'data.pickle')))
    env.concrete('the save method of every component is called once with its directory',
                 sorted(p for _, p, _ in w.saved) == sorted(w.disk.path(*[q for q in (base, d) if q]) for d in dirs) and all(k == {'extra': 3} for _, _, k in w.saved))
    K = w.classes[type(x).__name__]
    y = K()
    y.load(w.disk.path(name), extra=4)
    w.check('restored', y, x)
    env.concrete('the load method of every component is called once with its directory',
                 sorted(p for _, p, _ in w.loaded) == sorted(w.disk.path(*[q for q in (base, d) if q]) for d in dirs) and all(k == {'extra': 4} for _, _, k in w.loaded))
    env.concrete('before its owner', w.loaded[-1][0] is y)
    env.concrete('without warnings', w.log.warnings == [])
    # and again
    y.save(w.disk.path('again'))
    z = K()
    z.load(w.disk.path('again'))
    w.check('restored again', z, x)
    env.raises('a loaded component is not configured again', ValueError, lambda: z.configure(setting=1))
    env.raises('nor loaded again', ValueError, lambda: z.load(w.disk.path('again')))
    w.check('unchanged', z, x)


@contract(CONTRACTS, [B + 'save'], bounded='trees up to depth 3', trials=30)
def overwriting(env):
    """existing files are only replaced if this was asked for"""
    w = World(env)
    x, dirs = tree(env, w)
    x.save(w.disk.path('model'))
    K = w.classes[type(x).__name__]
    y, _ = tree_like(env, w, x)
    left = env.choose('existing', ['all', 'configuration', 'data', 'sub'])
    if left == 'sub' and len(dirs) == 1:
        return
    keep = {'all': lambda f: True, 'configuration': lambda f: f == 'model/configuration.yaml', 'data': lambda f: f == 'model/data.pickle', 'sub': lambda f: f.startswith('model/p/')}[left]
    for f in w.disk.listing():
        if not keep(f):
            w.m.os.remove(w.disk.path(f))
    before = w.disk.snapshot()
    if not env.flag('overwrite'):
        env.raises('refused', IOError, lambda: y.save(w.disk.path('model')))
        after = w.disk.snapshot()
        env.concrete('existing files are left as they were', all(after.get(f) == c for f, c in before.items()))
        return
    y.save(w.disk.path('model'), overwrite=True)
    z = K()
    z.load(w.disk.path('model'))
    w.check('replaced', z, y)


def tree_like(env, w, x):
    """another component with the same structure"""
    n = type(x).__name__
    subs = {k: tree_like(env, w, s)[0] for k, s in x.sub_components.items()}
    return w.new(n, subs or None, mutable=x.configuration.mutable_sub_components), None


@contract(CONTRACTS, STORE, trials=20)
def mismatches(env):
    """another class is rejected, another version reported and kept"""
    w = World(env)
    x = w.new('A', {'s': w.new('B')} if env.flag('sub component') else None)
    x.save(w.disk.path('model'))
    case = env.choose('case', ['class', 'version', 'wrong data'])
    if case == 'class':
        y = w.classes['C']()
        env.raises('another class', TypeError, lambda: y.load(w.disk.path('model')))
        env.concrete('not usable', y.is_configured is False)
        return
    y = w.classes['A']()
    if case == 'version':
        c = w.disk.load_yaml('model/configuration.yaml')
        c['event_generator_version'] = '0.0.0-other'
        w.disk.dump_yaml('model/configuration.yaml', c)
        y.load(w.disk.path('model'))
        env.concrete('reported', len(w.log.warnings) == 1 and '0.0.0-other' in w.log.warnings[0])
        same(env, 'configuration as it was saved', y.configuration.dict, c)
        same(env, 'data', y.data, x.data)
        return
    x._data = [1]
    x.save(w.disk.path('model'), overwrite=True)
    env.raises('wrong data', ValueError, lambda: y.load(w.disk.path('model')))
    env.concrete('not usable', y.is_configured is False)


@contract(CONTRACTS, [B + 'load'], trials=20)
def failed_loading(env):
    """a component that could not be loaded completely is not configured"""
    w = World(env)
    x = w.new('A', {'s': w.new('B', {'t': w.new('C')}), 'r': w.new('C')})
    x.save(w.disk.path('model'))
    w.m.os.remove(w.disk.path(env.choose('lost', ['model/configuration.yaml', 'model/data.pickle', 'model/s/configuration.yaml', 'model/s/t/data.pickle', 'model/r/data.pickle'])))
    y = w.classes['A']()
    try:
        y.load(w.disk.path('model'))
        failed = False
    except (OSError, KeyError):
        failed = True
    env.concrete('not loaded', failed)
    env.concrete('not configured', y.is_configured is False)
    env.raises('not usable', ValueError, lambda: y.save(w.disk.path('other')))


@contract(CONTRACTS, [B + 'save', B + '_get_untracked_member_attributes'], trials=20)
def untracked(env):
    """attributes that would be lost are only accepted on request"""
    w = World(env)
    x = w.new('A', {'s': w.new('B')})
    at = env.choose('at', ['top', 'sub', 'nowhere'])
    if at != 'nowhere':
        (x if at == 'top' else x.sub_components['s']).more = 3
    x._untracked_data['kept elsewhere'] = 1
    allow = env.flag('allowed')
    if at == 'nowhere' or allow:
        x.save(w.disk.path('m'), allow_untracked_attributes=allow)
        y = w.classes['A']()
        y.load(w.disk.path('m'))
        w.check('restored', y, x)
        env.concrete('untracked data are not stored', y.untracked_data == {})
    else:
        env.raises('rejected', AttributeError, lambda: x.save(w.disk.path('m')))
        if at == 'top':
            env.concrete('nothing is written', w.disk.listing() == [])


@contract(CONTRACTS, ['misc.load_class', 'misc.get_full_class_string_of_object'])
def class_strings(env):
    """the class a component records is the one it is restored as"""
    m = env.mod('misc')
    module, name = env.choose('module', ['model', 'package.model', 'package.sub.model']), env.choose('class', ['Model', 'package', 'sub'])
    cls = type(name, (), {'__module__': module})
    text = m.get_full_class_string_of_object(cls())
    env.concrete('module and name', text == module + '.' + name)
    asked = []
    env.patch(m, 'importlib', Obj(import_module=lambda k: [asked.append(k), Obj(**{name: cls, 'Other': None})][1]))
    env.concrete('same class', m.load_class(text) is cls and asked == [module])
