"""P27: models and managers assembled from their parts."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass, deep
CONTRACTS = []
B = 'manager.base.BaseModelManager.'
C = 'utils.build_components.'


@contract(CONTRACTS, ['model.source.base.Source._configure_derived_class', 'model.source.base.Source.get_index', 'model.source.base.Source.get_name', 'model.source.base.Source.add_parameter_indexing',
                      'model.source.base.InputTensorIndexer.__init__'], bounded='up to 3 parameters, any events')
def source(env):
    """the parameters of a source are those of its architecture: names and
    indices are inverse to each other and select the columns of the hypothesis"""
    m = env.mod('model.source.base')
    names = env.choose('parameters', [[], ['energy'], ['x', 'time', 'energy']])
    built = []
    x = subclass(m.Source, _build_architecture=lambda self, config, name=None: [built.append((config, name)), list(names)][1], assert_configured=lambda self, s: None, _untracked_data={},
                 untracked_data=property(lambda s: s._untracked_data), sub_components=None)
    trafo, config = Obj(), {'setting': 3, 'list': [1, 2]}
    name = env.choose('name', [None, 'my source'])
    conf, data, subs = x._configure_derived_class(config, trafo, name=name) if name else x._configure_derived_class(config=config, data_trafo=trafo)
    env.concrete('built once from the settings', len(built) == 1 and built[0][0] == {'setting': 3, 'list': [1, 2]} and built[0][1] == x.name and (name is None or x.name == name))
    env.concrete('settings', conf.settings == {'config': {'setting': 3, 'list': [1, 2]}} and conf.mutable_settings == {'name': x.name})
    env.concrete('sub components', list(subs) == ['data_trafo'] and subs['data_trafo'] is trafo and data == {})
    env.concrete('parameters', list(x.parameter_names) == names and x.num_parameters == len(names))
    env.concrete('indices', all(x.get_index(n) == i and x.get_name(i) == n for i, n in enumerate(names)))
    env.raises('unknown name', KeyError, lambda: x.get_index('unknown'))
    env.raises('unknown index', KeyError, lambda: x.get_name(len(names)))
    B = env.int('events', 1, 5)
    t = env.tensor('hypotheses', [B, len(names) + env.choose('more columns', [0, 1])])
    if t.shape[-1] != len(names):
        env.raises('wrong number of columns', ValueError, lambda: x.add_parameter_indexing(t))
        return
    y = x.add_parameter_indexing(t)
    e = env.index('event', B)
    for i, n in enumerate(names):
        env.equal('column by name', env.ref(getattr(y.params, n))[e], env.ref(t)[e, i])
        env.equal('column by key', env.ref(y.params[n])[e], env.ref(t)[e, i])


def kinds(config):
    from contracts.source import cascade_config, systematics_config, segment_config, quantile_config
    return {'cascade.default.DefaultCascadeModel': (cascade_config, True), 'cascade.systematic.SystematicsCascadeModel': (systematics_config, True),
            'cascade.charge_quantiles.ChargeQuantileCascadeModel': (quantile_config, False), 'track.stochastic_segment.StochasticTrackSegmentModel': (segment_config, False),
            'noise.default.DefaultNoiseModel': (None, False)}[config]


SOURCES = ['cascade.default.DefaultCascadeModel', 'cascade.systematic.SystematicsCascadeModel', 'cascade.charge_quantiles.ChargeQuantileCascadeModel', 'track.stochastic_segment.StochasticTrackSegmentModel',
           'noise.default.DefaultNoiseModel']


@contract(CONTRACTS, ['model.source.%s._build_architecture' % k for k in SOURCES], bounded='up to 2 additional labels and 2 groups of systematic parameters')
def parameters_of_a_source(env):
    """a source is described by the parameters of its hypothesis, then the stated
    labels, then the systematic parameters, numbered from 0 within their group;
    this leaves the settings as they are"""
    from contracts.source import Setup
    kind = env.choose('source', SOURCES)
    make, labels = kinds(kind)
    if make is None:
        env.concrete('no parameters', list(Setup(env, *('model.source.' + kind).rsplit('.', 1), config={}).names) == [])
        return
    kw, more = {}, []
    extra = env.choose('labels', [None, [], ['label'], ['b', 'a']]) if labels else None
    if extra is not None:
        kw['additional_label_names'] = list(extra)
        more += extra
    groups = env.choose('systematics', [None, [['DOMEfficiency', 1]], [['Ice_{}', 2]], [['DOMEfficiency', 1], ['Ice_{:03d}', 3]], [['Ice_{}', 3], ['Hole_{}', 2]], [['Ice_{}', 0], ['DOMEfficiency', 1]]])
    if groups is None and kind.endswith('SystematicsCascadeModel'):
        groups = [['DOMEfficiency', 1]]
    if groups is not None:
        kw['snowstorm_parameter_names'] = deep(groups)
        more += [n.format(i) for n, k in groups for i in range(k)]
    config = make(**kw)
    before = deep(config)
    s = Setup(env, *('model.source.' + kind).rsplit('.', 1), config=config)
    base = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time'] + ['length', 'stochasticity'] * kind.startswith('track')
    env.concrete('parameters', list(s.names) == base + more)
    env.concrete('the settings are unchanged', config == before)


class Part:
    """a component: its configuration"""

    def __init__(self, m, name, value, subs=None, **kw):
        self.configuration = m.Configuration(class_string='class.of.' + name, settings={'value': value}, sub_component_configurations={k: v.configuration.dict for k, v in (subs or {}).items()})
        self.data = {}
        self.__dict__.update(kw)


def ensemble(env, m, n, values, shared=True):
    """n models over transformers over data handlers with the given settings"""
    models = []
    for i in range(n):
        h = Part(m, 'handler', values[i][0])
        t = Part(m, 'trafo', values[i][1], {'data_handler': h})
        models.append(Part(m, 'model', i, {'data_trafo': t}, data_trafo=t, parameter_names=['a', 'b'], tag=i))
    return models


@contract(CONTRACTS, [B + '_configure', B + '_check_sub_component_compatibility', B + '_check_model_ensemble_compatibility', B + 'models', B + 'data_trafo', B + 'data_handler', B + '_update_sub_components', B + '_load'],
          bounded='ensembles of up to 12 models')
def manager(env):
    """a manager holds the given data handler and all models in their order; it
    is only configured, loaded or updated if each model was made for such a data
    handler and all models share parameters and transformation"""
    m = env.mod('manager.base')
    n = env.choose('models', [1, 2, 12])
    bad = env.choose('incompatible', [None, 'handler', 'trafo', 'names'])
    which = env.choose('model', sorted({0, n - 1, n // 2}))
    v = [env.real('handler setting'), env.real('trafo setting')]
    if not env.is_concrete:
        v = [1.5, 2.5]
    values = [list(v) for _ in range(n)]
    if bad in ('handler', 'trafo'):
        values[which][bad == 'trafo'] = v[bad == 'trafo'] + 1.
    models = ensemble(env, m, n, values)
    if bad == 'names':
        models[which].parameter_names = ['b', 'a']
    handler = Part(m, 'handler', v[0])
    x = subclass(m.BaseModelManager, _sub_components=None, _untracked_data={}, _logger=NullLog())
    # a single model is compatible with itself
    ok = bad is None or (n == 1 and bad != 'handler')
    go = lambda: x._configure(config={'manager_dir': 'd'}, data_handler=handler, models=models)
    if not ok:
        env.raises('incompatible parts', ValueError, go)
        if bad == 'handler':
            y = subclass(m.BaseModelManager, _sub_components=dict({'data_handler': handler}, **{'models_%04d' % i: q for i, q in enumerate(models)}), _untracked_data={})
            env.raises('incompatible after an update', ValueError, lambda: y._update_sub_components(['data_handler']))
            env.raises('incompatible after loading', ValueError, lambda: y._load('dir'))
        return
    conf, data, subs = go()
    env.concrete('settings', conf.settings == {'config': {'manager_dir': 'd'}} and data == {})
    env.concrete('every part once', len(subs) == n + 1 and subs['data_handler'] is handler and sum(1 for s in subs.values() if s is handler) == 1)
    x._sub_components = subs
    env.concrete('models in their order', len(x.models) == n and all(a is b for a, b in zip(x.models, models)) and x.data_handler is handler)
    env.concrete('transformer', x.data_trafo is models[0].data_trafo)
    x._update_sub_components(['data_handler'])
    x._load('dir')
    env.raises('other parts can not be replaced', ValueError, lambda: x._update_sub_components(['data_handler', 'models_0000']))
    z = subclass(m.BaseModelManager, _sub_components=None, _untracked_data={})
    env.concrete('not configured', z.models is None and z.data_handler is None and z.data_trafo is None)


class Classes:
    """component classes by name: record how they are configured and loaded"""

    def __init__(self, env, m):
        self.made = []
        classes = self

        class Component:
            def __init__(self, kind):
                self.kind, self.log = kind, []
                classes.made.append(self)

            def configure(self, **kw):
                self.log.append(('configure', kw))

            def load(self, *a, **kw):
                self.log.append(('load', a, kw))
        self.Component = Component
        env.patch(m.misc, 'load_class', lambda s: lambda: Component(s))
        env.patch(m, 'DataTransformer', lambda: Component('trafo'))
        env.patch(m, 'MultiLossModule', lambda: Component('multi'))


@contract(CONTRACTS, [C + 'build_data_handler', C + 'build_loss_module'], bounded='up to 3 loss modules')
def handler_and_loss(env):
    """the data handler and the loss modules are those of the settings, each
    configured with its own settings, several losses being combined in order"""
    m = env.mod('utils.build_components')
    k = Classes(env, m)
    s = {'data_handler': 'some.Handler', 'other': 3}
    h = m.build_data_handler({'data_handler_settings': s})
    env.concrete('data handler', h.kind == 'egenerator.data.handler.some.Handler' and h.log == [('configure', {'config': s})])
    n = env.choose('losses', [None, 1, 3])
    one = lambda i: {'loss_module': 'loss%d' % i, 'config': {'i': i}}
    del k.made[:]
    loss = m.build_loss_module({'loss_module_settings': one(0) if n is None else [one(i) for i in range(n)]})
    parts = [loss] if n is None else loss.log[0][1]['loss_modules']
    env.concrete('losses', [p.kind for p in parts] == ['loss%d' % i for i in range(n or 1)] and all(p.log == [('configure', {'config': {'i': i}})] for i, p in enumerate(parts)))
    env.concrete('combined', n is None or (loss.kind == 'multi' and len(loss.log) == 1 and list(loss.log[0][1]) == ['loss_modules']))
    env.concrete('nothing else', len(k.made) == (1 if n is None else n + 1))


@contract(CONTRACTS, [C + 'build_model'], bounded='up to 3 base sources')
def model(env):
    """a model is configured with the given transformer and every base source of
    the settings: loaded where a directory is stated and otherwise built (only if
    that is allowed) with its own transformer or that of the model"""
    m = env.mod('utils.build_components')
    k = Classes(env, m)
    kinds = env.choose('base sources', [None, (), ('load',), ('build',), ('own', 'load', 'build'), ('none', 'own')])
    allowed = env.flag('allowed')
    s = {'model_class': 'Model', 'config': {'c': 1}}
    if kinds is not None:
        s['multi_source_bases'] = {}
        for i, q in enumerate(kinds):
            b = {'model_class': 'Base%d' % i, 'config': {'i': i}}
            if q == 'load':
                b['load_dir'] = '/dir%d' % i
            if q == 'none':
                b['load_dir'] = None
            if q == 'own':
                b['data_trafo_settings'] = {'model_dir': '/trafo%d' % i}
            s['multi_source_bases']['name%d' % i] = b
    trafo = Obj()
    kw = dict(allow_rebuild_base_sources=True) if allowed else {}
    go = lambda: m.build_model({'model_settings': s}, trafo, **kw)
    if not allowed and any(q != 'load' for q in kinds or ()):
        env.raises('not allowed', ValueError, go)
        return
    x = go()
    env.concrete('the model', x.kind == 'Model' and len(x.log) == 1 and x.log[0][0] == 'configure')
    arg = x.log[0][1]
    env.concrete('its settings', arg['config'] == {'c': 1} and arg['data_trafo'] is trafo)
    env.concrete('base sources', sorted(arg.get('base_sources', {})) == ['name%d' % i for i in range(len(kinds or ()))] and set(arg) <= {'config', 'data_trafo', 'base_sources'})
    for i, q in enumerate(kinds or ()):
        b = arg['base_sources']['name%d' % i]
        env.concrete('class', b.kind == 'Base%d' % i and len(b.log) == 1)
        if q == 'load':
            env.concrete('loaded', b.log == [('load', ('/dir%d' % i,), {})] or b.log == [('load', (), {'dir_path': '/dir%d' % i})])
        else:
            a = b.log[0][1]
            env.concrete('built', b.log[0][0] == 'configure' and a['config'] == {'i': i} and set(a) == {'config', 'data_trafo'})
            t = a['data_trafo']
            env.concrete('transformer', t is trafo if q != 'own' else t.kind == 'trafo' and t.log == [('load', ('/trafo%d' % i,), {})])


@contract(CONTRACTS, [C + 'build_manager'])
def assembled(env):
    """a manager is restored from its directory (with the given parts replaced)
    or configured with the given parts, those not given being built from the
    settings"""
    m = env.mod('utils.build_components')
    k = Classes(env, m)
    restore = env.flag('restore')
    given = {n: Obj() for n in ('data_handler', 'data_transformer', 'models') if env.flag(n)}
    if 'models' in given:
        given['models'] = [Obj(), Obj()]
    allowed = env.flag('allowed')
    calls = []
    env.patch(m, 'build_data_handler', lambda c: [calls.append(('handler', c)), 'built handler'][1])

    def build(c, data_transformer, allow_rebuild_base_sources=False):
        calls.append(('model', c, data_transformer, allow_rebuild_base_sources))
        return 'built model'
    env.patch(m, 'build_model', build)
    for n in ('models', 'data_handler', 'data_trafo'):
        setattr(k.Component, n, 'own ' + n)
    mc = {'manager_dir': '/dir', 'other': 1}
    config = {'model_manager_settings': {'config': mc, 'model_manager_class': 'Manager'}, 'data_trafo_settings': {'model_dir': '/trafo'}}
    parts = {'data_handler': {'misc_module': Obj()}}
    kw = dict(given, **({'modified_sub_components': parts} if restore else {}))
    if allowed:
        kw['allow_rebuild_base_sources'] = True
    out = m.build_manager(config, restore, **kw)
    x = out[0]
    env.concrete('results', len(out) == 4 and x.kind == 'Manager' and list(out[1:]) == ['own models', 'own data_handler', 'own data_trafo'] and len(x.log) == 1)
    if restore:
        how, a, b = x.log[0]
        env.concrete('restored', how == 'load' and (list(a) or [b.get('dir_path')]) == ['/dir'] and b['modified_sub_components'] is parts and not calls and len(k.made) == 1)
        return
    how, a = x.log[0]
    trafos = [t for t in k.made if t.kind == 'trafo']
    t = given.get('data_transformer')
    if t is None and 'models' not in given:
        env.concrete('transformer from its directory', len(trafos) == 1 and trafos[0].log == [('load', ('/trafo',), {})])
        t = trafos[0]
    env.concrete('configured', how == 'configure' and set(a) == {'config', 'data_handler', 'models'} and a['config'] == mc)
    env.concrete('data handler', a['data_handler'] is given['data_handler'] if 'data_handler' in given else a['data_handler'] == 'built handler' and [c for c in calls if c[0] == 'handler'] == [('handler', config)])
    made = [c for c in calls if c[0] == 'model']
    if 'models' in given:
        env.concrete('models', a['models'] is given['models'] and not made)
    else:
        env.concrete('model', list(a['models']) == ['built model'] and len(made) == 1 and made[0][1] == config and made[0][2] is t and made[0][3] == allowed)


@contract(CONTRACTS, ['utils.configurator.ManagerConfigurator.__init__'], bounded='up to 3 models')
def configurator(env):
    """an ensemble holds the models of every stated directory in order, each
    restored with the seed, label and data modules of the stated settings (updated
    with the given ones), and is built with the stated settings and their loss"""
    m = env.mod('utils.configurator')
    dirs = env.choose('directories', ['/a', ['/a'], ['/a', '/b', '/c']])
    reco = env.choose('reco directory', [None, '/r'])
    seeds = env.choose('seeds', [None, ['x_parameters'], ['s', 't']])
    labels, lab, dat = env.flag('load labels'), env.flag('label settings'), env.flag('data settings')

    def settings(d):
        return {'data_handler_settings': {'data_module': 'D' + d, 'data_settings': {'pulse_key': 'p' + d, 'other': d}, 'label_module': 'L' + d, 'label_settings': {'label_key': 'l' + d}},
                'reconstruction_settings': dict(seed='seed' + d, seed_parameter_names='names' + d, seed_float_precision='f' + d, seed_missing_value='v' + d, seed_missing_value_dict='w' + d),
                'model_manager_settings': {'config': {'manager_dir': 'original', 'd': d}}}
    read, threads, made = [], [], []

    def setup(files):
        read.append(list(files))
        d = files[0].rsplit('/', 1)[0]
        return Obj(get_config=lambda: settings(d))

    class Module:
        def __init__(self, kind):
            self.kind, self.log = kind, []
            made.append(self)

        def configure(self, config_data='missing', **kw):
            self.log.append((config_data, deep(kw)))
    built = []

    def build_manager(config, restore, **kw):
        n = len(built)
        built.append((deep(config), restore, kw))
        mgr = Obj(models=['model %d' % n, 'second model %d' % n][:2 if n == 1 else 1])
        return mgr, mgr.models, 'handler %d' % n, 'trafo %d' % n
    env.patch(m, 'SetupManager', setup)
    env.patch(m, 'build_manager', build_manager)
    env.patch(m, 'build_loss_module', lambda c: ('loss', deep(c)))
    env.patch(m, 'SeedLoaderMiscModule', lambda: Module('seed'))
    env.patch(m.misc, 'load_class', lambda s: lambda: Module(s))
    env.patch(m, 'tf', Obj(random=Obj(set_seed=lambda s: threads.append(s)), config=Obj(experimental=Obj(list_physical_devices=lambda k: ['gpu'], set_memory_growth=lambda d, b: None),
                           threading=Obj(set_intra_op_parallelism_threads=lambda n: threads.append(('intra', n)), set_inter_op_parallelism_threads=lambda n: threads.append(('inter', n))))))
    x = m.ManagerConfigurator(dirs, reco_config_dir=reco, load_labels=labels, misc_setting_updates={} if seeds is None else {'seed_names': seeds, 'seed_float_precision': 'float16'},
                              label_setting_updates={'label_key': 'new label'} if lab else {}, data_setting_updates={'pulse_key': 'new pulses'} if dat else {}, num_threads=4, tf_random_seed=99)
    dirs = [dirs] if isinstance(dirs, str) else dirs
    r = reco or dirs[0]
    env.concrete('seed and threads', threads[0] == 99 and sorted(threads[1:]) == [('inter', 4), ('intra', 4)])
    env.concrete('read settings', read == [[r + '/reco_config.yaml']] + [[d + '/reco_config.yaml'] for d in dirs])
    env.concrete('loss', x.loss_module[0] == 'loss' and x.loss_module[1]['reconstruction_settings'] == settings(r)['reconstruction_settings'])
    env.concrete('built', len(built) == len(dirs) + 1)
    want = {}
    if seeds == ['s', 't']:
        want['misc_module'] = ('seed', dict(seed_names=seeds, seed_parameter_names='names' + r, seed_float_precision='float16', missing_value='v' + r, missing_value_dict='w' + r))
        want['misc_module'][1]['float_precision'] = 'f' + r
    if not labels:
        want['label_module'] = ('egenerator.data.modules.labels.dummy.DummyLabelModule', {})
    elif lab:
        want['label_module'] = ('egenerator.data.modules.labels.L' + r, {'label_key': 'new label'})
    if dat:
        want['data_module'] = ('egenerator.data.modules.data.D' + r, {'pulse_key': 'new pulses', 'other': r})
    for d, (config, restore, kw) in zip(dirs, built):
        env.concrete('restored', restore is True and config['model_manager_settings']['config'] == {'manager_dir': d, 'd': d} and kw.get('allow_rebuild_base_sources', False) is False)
        parts = kw['modified_sub_components']
        env.concrete('replaced parts', sorted(parts) == (['data_handler'] if want else []) and sorted(parts.get('data_handler', {})) == sorted(want))
        for k, (kind, kv) in want.items():
            q = parts['data_handler'][k]
            env.concrete('%s is configured once' % k, q.kind == kind and len(q.log) == 1 and q.log[0][0] is None and q.log[0][1] == kv)
    config, restore, kw = built[-1]
    models = []
    for i in range(len(dirs)):
        models += ['model %d' % i, 'second model %d' % i][:2 if i == 1 else 1]
    env.concrete('ensemble', restore is False and list(kw['models']) == models and kw.get('allow_rebuild_base_sources', False) is False)
    env.concrete('parts of the restored models', kw['data_handler'] in ['handler %d' % i for i in range(len(dirs))] and kw['data_transformer'] == kw['data_handler'].replace('handler', 'trafo'))
    env.concrete('settings', config['model_manager_settings'] == settings(r)['model_manager_settings'] and config['reconstruction_settings'] == settings(r)['reconstruction_settings'])
    env.concrete('manager', x.manager.models == ['model %d' % len(dirs)] or x.manager.models == ['model %d' % len(dirs), 'second model %d' % len(dirs)])


@contract(CONTRACTS, ['manager.component.BaseComponent.load'], bounded='up to 3 components')
def loaded_alike(env):
    """parts which replace those of saved components are used in each of them,
    however many are loaded with the same replacements"""
    from contracts.tree import World
    w = World(env)
    v, u = env.real('v'), env.real('u')
    n = env.choose('components', [2, 3])
    for i in range(n):
        w.new('A', {'handler': w.new('B', {'labels': w.new('C', v=v, data=u), 'seeds': w.new('C', v=u)}), 'other': w.new('C', v=v, data=u)}).save(w.disk.path('x%d' % i))
    labels, other = w.new('C', v=v, data=u), w.new('C', v=v, data=u)
    which = env.choose('replaced', ['both', 'labels', 'other'])
    mods = dict(([('handler', {'labels': labels})] if which != 'other' else []) + ([('other', other)] if which != 'labels' else []))
    for i in range(n):
        x = w.classes['A']()
        x.load(w.disk.path('x%d' % i), modified_sub_components=mods)
        env.concrete('labels', (x.sub_components['handler'].sub_components['labels'] is labels) == (which != 'other'))
        env.concrete('other part', (x.sub_components['other'] is other) == (which != 'labels'))
