"""P03: compatibility of configurations."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Disk, same, deep
CONTRACTS = []
C, B = 'manager.component.Configuration.', 'manager.component.BaseComponent.'


def parts(env, tag):
    """arguments of a configuration with arbitrary values"""
    return dict(class_string='some.Class', settings={'a': env.real('a'), 'n': {'b': env.real('b'), 'l': [1, env.real('l')], 'none': None}},
                mutable_settings={'m': env.real('m'), 'k': {'q': env.real('q')}}, check_values={'c': env.real('c'), 'd': {'e': env.real('e')}})


def build(m, p, subs=None, dependent=(), mutable=()):
    k = dict(p)
    if subs is not None:
        k['sub_component_configurations'] = subs
    return m.Configuration(logger=NullLog(), dependent_sub_components=list(dependent), mutable_sub_components=list(mutable), **k)


@contract(CONTRACTS, [C + f for f in ('__init__', '_combine_settings', 'settings', 'mutable_settings', 'check_values', 'class_string', 'config', 'dict', 'sub_component_configurations')])
def combined(env):
    """a configuration is the union of its settings, and is not changed through
    anything handed in or out"""
    m = env.mod('manager.component')
    p = parts(env, 'p')
    sub = build(m, parts(env, 's')).dict
    given, gsub = deep(p), deep(sub)
    c = build(m, given, {'s': gsub}, ['s'] if env.flag('dependent') else [], ['s'] if env.flag('mutable') else [])

    def check(when):
        same(env, when + ' settings', c.settings, p['settings'])
        same(env, when + ' mutable settings', c.mutable_settings, p['mutable_settings'])
        same(env, when + ' check values', c.check_values, p['check_values'])
        same(env, when + ' config', c.config, dict(p['settings'], **p['mutable_settings']))
        same(env, when + ' sub configurations', c.sub_component_configurations, {'s': sub})
        env.concrete(when + ' class', c.class_string == 'some.Class')
    check('initial')
    given['settings']['n']['b'] = given['settings']['a'] = 'changed'
    given['mutable_settings']['k']['q'] = 'changed'
    given['check_values']['c'] = given['check_values']['d']['e'] = 'changed'
    gsub['settings']['a'] = 'changed'
    for out in (c.settings, c.config, c.dict['settings']):
        out['n']['b'] = out['more'] = 'changed'
    c.mutable_settings['k']['q'] = c.config['k']['q'] = c.dict['mutable_settings']['m'] = 'changed'
    c.check_values['c'] = 'changed'
    c.check_values['d']['e'] = c.dict['check_values']['d']['e'] = 'changed'
    c.sub_component_configurations['s']['settings']['a'] = 'changed'
    check('later')
    d = c.dict
    infos = m.version_control.get_git_infos()
    env.concrete('version', (d['event_generator_version'], d['event_generator_git_sha'], d['event_generator_origin'], d['event_generator_uncommitted_changes'])
                 == (m.egenerator.__version__,) + tuple(infos[1:]))
    old = dict(event_generator_version='0.0.1', event_generator_git_sha='abc', event_generator_origin='here', event_generator_uncommitted_changes=env.flag('changes'))
    r = m.Configuration(**dict(d, **old))
    same(env, 'restored from the record of another version', r.dict, dict(d, **old))
    r = m.Configuration(**d)
    same(env, 'restored from its record', r.dict, c.dict)
    same(env, 'with the same config', r.config, c.config)


@contract(CONTRACTS, [C + '__init__', C + '_combine_settings', C + '_check_dependent_names', C + 'add_dependent_sub_components', C + 'add_mutable_sub_components'])
def clashes(env):
    """a setting cannot be both fixed and mutable; unknown sub components are
    rejected"""
    m = env.mod('manager.component')
    p, sub = parts(env, 'p'), build(m, parts(env, 's')).dict
    k = env.choose('key', ['a', 'n'])
    q = deep(p)
    q['mutable_settings'][k] = deep(p['settings'][k]) if env.flag('same value') else env.real('other')
    env.raises('clashing settings', ValueError, lambda: build(m, q))
    env.raises('unknown dependent sub component', KeyError, lambda: build(m, p, {'s': sub}, ['s', 't']))
    c = build(m, p, {'s': sub})
    env.raises('unknown dependent sub component later', KeyError, lambda: c.add_dependent_sub_components(['t']))
    env.raises('unknown mutable sub component later', KeyError, lambda: c.add_mutable_sub_components(['t']))
    c.add_dependent_sub_components(['s'])
    c.add_mutable_sub_components(['s'])
    env.concrete('declared', c.dependent_sub_components == ['s'] and c.mutable_sub_components == ['s'])


@contract(CONTRACTS, [C + '__init__', C + 'add_dependent_sub_components', C + 'add_mutable_sub_components', C + 'add_sub_components', C + 'update_mutable_settings',
                      C + 'dependent_sub_components', C + 'mutable_sub_components'])
def independent(env):
    """configurations share nothing with each other or with what they were
    created from: changing one leaves all others as they were"""
    m = env.mod('manager.component')
    p, subs = parts(env, 'p'), {n: build(m, parts(env, 's')).dict for n in 'st'}
    lists = {}
    if env.flag('lists given'):
        lists = dict(dependent_sub_components=['s'], mutable_sub_components=['t'])
    args = dict(p, **lists)
    if env.flag('sub components given'):
        args['sub_component_configurations'] = subs
    elif lists:
        return
    if env.flag('only the class'):
        args = dict(class_string='some.Class', settings={}, **{k: v for k, v in args.items() if k not in p})
    before = deep(args)
    make = lambda: m.Configuration(logger=NullLog(), **args)
    a, b = make(), make()
    first = deep(a.dict)
    K = component(m)
    x = K()
    x._configuration, x._is_configured = build(m, parts(env, 'x')), True
    a.add_sub_components({'x': x})
    a.add_dependent_sub_components(['x'])
    a.add_mutable_sub_components(['x'])
    if 'mutable_settings' in args:
        a.update_mutable_settings({'m': env.real('other')})
    env.concrete('changed', a.dependent_sub_components == lists.get('dependent_sub_components', []) + ['x'] and a.mutable_sub_components == lists.get('mutable_sub_components', []) + ['x'])
    same(env, 'the other one is left as it was', b.dict, first)
    same(env, 'as are the arguments', args, before)
    same(env, 'and later ones', make().dict, first)


@contract(CONTRACTS, [C + 'update_mutable_settings'])
def update(env):
    """only mutable settings can be updated; the combined settings follow"""
    m = env.mod('manager.component')
    p = parts(env, 'p')
    c = build(m, p)
    bad = env.choose('unknown', ['a', 'n', 'c', 'other'])
    env.raises('not mutable', KeyError, lambda: c.update_mutable_settings({bad: env.real('x')}))
    same(env, 'left as it was', c.config, dict(p['settings'], **p['mutable_settings']))
    new = {'m': env.real('new')}
    if env.flag('both'):
        new['k'] = {'other': env.real('r')}
    c.update_mutable_settings(new)
    want = dict(p['mutable_settings'], **new)
    same(env, 'mutable settings', c.mutable_settings, want)
    same(env, 'settings', c.settings, p['settings'])
    same(env, 'config', c.config, dict(p['settings'], **want))


WHERE = ['nothing', 'class', 'setting', 'nested setting', 'missing setting', 'further setting', 'check value', 'missing check value', 'mutable setting', 'missing mutable setting', 'version', 'lists']


def vary(env, p, where, v, w):
    """two variants of the arguments that differ (if v != w) at one place:
    (first, second, condition for compatibility)"""
    a, b = deep(p), deep(p)
    eq = (v == w)
    if where == 'nothing':
        return a, b, True
    if where == 'class':
        b['class_string'] = 'some.Class2'
        return a, b, False
    if where == 'setting':
        a['settings']['a'], b['settings']['a'] = v, w
    elif where == 'nested setting':
        a['settings']['n']['l'][1], b['settings']['n']['l'][1] = v, w
    elif where == 'missing setting':
        del b['settings']['n']['none']
        return a, b, False
    elif where == 'further setting':
        b['settings']['z'] = v
        return a, b, False
    elif where == 'check value':
        a['check_values']['c'], b['check_values']['c'] = v, w
    elif where == 'missing check value':
        del b['check_values']['c']
        return a, b, False
    elif where == 'mutable setting':
        a['mutable_settings']['m'], b['mutable_settings']['m'] = v, w
        b['mutable_settings']['k']['q'] = w
        return a, b, True
    elif where == 'missing mutable setting':
        del b['mutable_settings']['m']
        b['mutable_settings']['z'] = w
        return a, b, True
    elif where == 'version':
        b['event_generator_version'], b['event_generator_git_sha'] = '0.0.0', 'abc'
        return a, b, True
    elif where == 'lists':
        return a, b, True
    return a, b, eq


def judge(env, name, got, want):
    """got (a decision of the code on this path) is right"""
    if isinstance(want, bool):
        env.concrete(name, bool(got) == want)
    else:
        env.prove(name, want if got else env_not(want))


def env_not(x):
    return ~x if not isinstance(x, (bool,)) and hasattr(x, '__invert__') else (not x)


@contract(CONTRACTS, [C + 'is_compatible'])
def comparison(env):
    """compatible exactly if only mutable or run time settings differ"""
    m = env.mod('manager.component')
    v, w = env.real('v'), env.real('w')
    if env.is_concrete and env.flag('alike'):
        w = v
    a, b, want = vary(env, parts(env, 'p'), env.choose('where', WHERE), v, w)
    ca, cb = build(m, a), build(m, b)
    before = (ca.dict, cb.dict)
    judge(env, 'comparison', bool(ca.is_compatible(cb)), want)
    judge(env, 'reversed comparison', bool(cb.is_compatible(ca)), want)
    same(env, 'first configuration is left as it was', ca.dict, before[0])
    same(env, 'second configuration is left as it was', cb.dict, before[1])


@contract(CONTRACTS, [C + 'is_compatible'], bounded='sub components nested up to depth 3, up to 2 per component')
def nested_comparison(env):
    """sub components have to be compatible recursively, except those which the
    first configuration declares mutable"""
    m = env.mod('manager.component')
    v, w = env.real('v'), env.real('w')
    if env.is_concrete and env.flag('alike'):
        w = v
    depth = env.choose('depth', [1, 2, 3])
    where = env.choose('where', ['setting', 'check value', 'class', 'mutable setting', 'sub component', 'nothing'])
    p = parts(env, 'p')
    other = build(m, parts(env, 'o')).dict
    if where == 'sub component':
        a, b, want = deep(p), deep(p), False
        ca, cb = build(m, a, {'x': other, 'y': other} if env.flag('first has more') else {'x': other}), build(m, b, {'y': other} if env.flag('renamed') else {})
    else:
        a, b, want = vary(env, p, where, v, w)
        ca, cb = build(m, a), build(m, b)
    for d in range(depth):
        mut = env.choose('mutable', [None, 'first', 'second', 'other'])
        up = parts(env, 'u')
        sa, sb = {'s': ca.dict}, {'s': cb.dict}
        if d == 0:
            sa['t'], sb['t'] = other, other
        else:
            other_names = []
        ca = build(m, up, sa, mutable=['s'] if mut == 'first' else (['t'] if mut == 'other' and d == 0 else []))
        cb = build(m, deep(up), sb, mutable=['s'] if mut == 'second' else [])
        if mut == 'first':
            want = True
    judge(env, 'comparison', bool(ca.is_compatible(cb)), want)


def component(m, name='Comp', **attrs):
    return type(name, (m.BaseComponent,), attrs)


@contract(CONTRACTS, [B + 'is_compatible'])
def components(env):
    """components are compatible exactly if class and configuration are"""
    m = env.mod('manager.component')
    K, K2 = component(m), component(m, 'Other')
    v, w = env.real('v'), env.real('w')
    x, y = K(), (K if env.flag('same class') else K2)()
    p = parts(env, 'p')
    q = deep(p)
    p['settings']['a'], q['settings']['a'] = v, w
    x._configuration, y._configuration = build(m, p), build(m, q)
    judge(env, 'comparison', bool(x.is_compatible(y)), (v == w) if type(x) is type(y) else False)


@contract(CONTRACTS, [C + 'add_sub_components', C + 'replace_sub_components'])
def sub_components(env):
    """only configured components are added under new names or replace those of
    the same name"""
    m = env.mod('manager.component')
    K = component(m)

    def comp(configured=True):
        x = K()
        if configured:
            x._configuration = build(m, parts(env, 'x'))
            x._is_configured = True
        return x
    c = build(m, parts(env, 'p'), {'s': build(m, parts(env, 's')).dict})
    before = c.dict
    case = env.choose('case', ['add', 'add existing', 'add unconfigured', 'add other', 'replace', 'replace unknown', 'replace unconfigured', 'replace other'])
    if case == 'add':
        x, y = comp(), comp()
        c.add_sub_components({'x': x, 'y': y})
        same(env, 'added', c.dict['sub_component_configurations'], dict(before['sub_component_configurations'], x=x.configuration.dict, y=y.configuration.dict))
        return
    if case == 'replace':
        x = comp()
        c.replace_sub_components({'s': x})
        same(env, 'replaced', c.dict['sub_component_configurations'], {'s': x.configuration.dict})
        return
    exc, f = {'add existing': (KeyError, lambda: c.add_sub_components({'s': comp()})), 'add unconfigured': (ValueError, lambda: c.add_sub_components({'x': comp(False)})),
              'add other': (TypeError, lambda: c.add_sub_components({'x': 3})), 'replace unknown': (KeyError, lambda: c.replace_sub_components({'x': comp()})),
              'replace unconfigured': (ValueError, lambda: c.replace_sub_components({'s': comp(False)})), 'replace other': (TypeError, lambda: c.replace_sub_components({'s': 's'}))}[case]
    env.raises(case, exc, f)
    same(env, 'left as it was', c.dict, before)


@contract(CONTRACTS, [B + 'load', B + 'is_compatible', C + 'is_compatible', C + 'replace_sub_components'], bounded='trees of depth 2', trials=40)
def replacement(env):
    """a sub component replaced at load time has to be configured and compatible
    unless it was declared mutable; the configuration names the replacement"""
    from contracts.tree import World
    w = World(env)
    v, u = env.real('v'), env.real('u')
    mut = env.flag('declared mutable')
    old, other = w.new('B', v=v, data=u), w.new('C')
    top = w.new('A', {'s': old, 't': other}, mutable=['s'] if mut else [])
    top.save(w.disk.path('x'))
    case = env.choose('case', ['compatible', 'incompatible', 'other class', 'unconfigured', 'unknown name', 'nothing'])
    new = {'compatible': lambda: w.new('B', v=v, data=u), 'incompatible': lambda: w.new('B', v=v + 1., data=u), 'other class': lambda: w.new('C', v=v, data=u),
           'unconfigured': lambda: w.classes['B'](), 'unknown name': lambda: w.new('B', v=v, data=u), 'nothing': lambda: None}[case]()
    x = w.classes['A']()
    if case == 'nothing':
        x.load(w.disk.path('x'))
        w.check('restored', x, top)
        return
    mods = {'u' if case == 'unknown name' else 's': new}
    if case in ('unconfigured', 'unknown name') or (case in ('incompatible', 'other class') and not mut):
        env.raises(case, ValueError, lambda: x.load(w.disk.path('x'), modified_sub_components=mods))
        env.concrete('not usable', x.is_configured is False)
        return
    x.load(w.disk.path('x'), modified_sub_components=mods)
    env.concrete('replaced', x.sub_components['s'] is new and x.untracked_data.get('updated') == ['s'])
    w.check('other sub component', x.sub_components['t'], other)
    want = top.configuration.dict
    want['sub_component_configurations']['s'] = new.configuration.dict
    same(env, 'configuration', x.configuration.dict, want)
    env.concrete('configured', x.is_configured is True)


@contract(CONTRACTS, [B + 'load', B + 'is_compatible', C + 'is_compatible', C + 'replace_sub_components'], bounded='trees of depth 3', trials=24)
def nested_replacement(env):
    """replacements are passed on to sub components, and every configuration
    above names them"""
    from contracts.tree import World
    w = World(env)
    v = env.real('v')
    u = env.real('u')
    leaf = w.new('C', v=v, data=u)
    mid = w.new('B', {'leaf': leaf})
    top = w.new('A', {'mid': mid})
    top.save(w.disk.path('x'))
    ok = env.flag('compatible')
    unknown = env.flag('unknown name')
    new = w.new('C', v=v if ok else v + 1., data=u)
    x = w.classes['A']()
    run = lambda: x.load(w.disk.path('x'), modified_sub_components={'mid': {'leave' if unknown else 'leaf': new}})
    if unknown or not ok:
        env.raises('rejected', ValueError, run)
        env.concrete('not usable', x.is_configured is False)
        return
    run()
    got = x.sub_components['mid']
    env.concrete('replaced', got.sub_components['leaf'] is new and got.untracked_data['updated'] == ['leaf'] and x.untracked_data['updated'] == ['mid'])
    want = mid.configuration.dict
    want['sub_component_configurations']['leaf'] = new.configuration.dict
    same(env, 'configuration of the sub component', got.configuration.dict, want)
    same(env, 'configuration', x.configuration.dict['sub_component_configurations'], {'mid': want})


@contract(CONTRACTS, [B + 'load', C + 'replace_sub_components'], bounded='four sub components, two with sub components of their own', trials=24)
def several_replacements(env):
    """any number of sub components can be replaced, at any depth"""
    from contracts.tree import World
    w = World(env)
    v, u = env.real('v'), env.real('u')
    leaf = lambda: w.new('C', v=v, data=u)
    top = w.new('A', {'p': leaf(), 'q': w.new('B', {'leaf': leaf()}), 'r': leaf(), 's': w.new('B', {'leaf': leaf()})})
    top.save(w.disk.path('x'))
    which = [n for n in 'pqrs' if env.flag('replaced ' + n)]
    bad = env.choose('incompatible', which + [None])
    new = {n: w.new('C', v=v + 1. if n == bad else v, data=u) for n in which}
    for n in which:
        new[n].configuration.update_mutable_settings({'free': env.real('free ' + n)})
    names = env.choose('order', [which, which[::-1]])
    mods = {n: {'leaf': new[n]} if n in 'qs' else new[n] for n in names}
    x = w.classes['A']()

    def kept():
        """the replacements can be used for further components"""
        env.concrete('replacements are left as they are', list(mods) == names and all((list(mods[n]) == ['leaf'] and mods[n]['leaf'] is new[n]) if n in 'qs' else mods[n] is new[n] for n in names))
    if bad is not None:
        env.raises('rejected', ValueError, lambda: x.load(w.disk.path('x'), modified_sub_components=mods))
        kept()
        env.concrete('not usable', x.is_configured is False)
        return
    x.load(w.disk.path('x'), modified_sub_components=mods)
    kept()
    env.concrete('told about the changes', sorted(x.untracked_data.get('updated', [])) == which)
    for n in 'pqrs':
        c = x.sub_components[n]
        got, old = (c.sub_components['leaf'], top.sub_components[n].sub_components['leaf']) if n in 'qs' else (c, top.sub_components[n])
        if n in which:
            env.concrete('replaced %s' % n, got is new[n])
        else:
            w.check('kept %s' % n, got, old)
        same(env, 'configuration of %s' % n, x.configuration.dict['sub_component_configurations'][n], c.configuration.dict)
        if n in 'qs':
            same(env, 'configuration below %s' % n, c.configuration.dict['sub_component_configurations'], {'leaf': got.configuration.dict})
