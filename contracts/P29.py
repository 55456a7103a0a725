"""P29: the command line steps."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Disk, deep
CONTRACTS = []


class Script:
    """a command line script whose collaborators record what they are given"""

    def __init__(self, env, name, configs, answer=None):
        self.env, self.log, self.configs, self.built = env, [], configs, []
        m = self.m = env.mod(name)
        self.disk = Disk(env, m)
        script = self

        class Setup:
            def __init__(self, files):
                self.files = list(files)

            def get_config(self):
                assert len(self.files) == 1 or 'all' in configs
                return configs[self.files[0] if len(self.files) == 1 else 'all']

        def confirm(msg, default=False, **kw):
            script.log.append(('ask', default))
            return answer

        def rmtree(path, *a, **kw):
            script.log.append(('delete', path))
            root = script.disk.root
            assert path.startswith(root + '/')
            if env.is_concrete:
                import shutil
                shutil.rmtree(path)
            else:
                for f in [f for f in script.disk.files if f.startswith(path + '/')]:
                    del script.disk.files[f]
                script.disk.dirs.discard(path)
        env.patch(m, 'SetupManager', Setup)
        env.patch(m, 'click', Obj(confirm=confirm))
        env.patch(m, 'print', lambda *a, **k: None)
        if hasattr(m, 'shutil') and m.shutil is not None:
            env.patch(m, 'shutil', Obj(rmtree=rmtree, copy=lambda a, b: script.log.append(('copy', a, b)), copyfile=lambda a, b: script.log.append(('copy', a, b)), copy2=lambda a, b: script.log.append(('copy', a, b))))
        env.patch(m, 'tf', Obj(config=Obj(list_physical_devices=lambda k: [], experimental=Obj(list_physical_devices=lambda k: [], set_memory_growth=lambda d, v: None))))
        env.patch(m, 'logging', Obj(getLogger=lambda *a: NullLog()))
        env.patch(m, 'build_loss_module', lambda c: [script.log.append(('loss', c)), 'loss module'][1])
        env.patch(m, 'build_manager', self.build)
        env.patch(m.misc, 'load_class', self.load_class)

    def build(self, config, restore, data_handler=None, data_transformer=None, models=None, modified_sub_components={}, allow_rebuild_base_sources=False):
        i = len(self.built)
        log = self.log
        models = ['model %d of %d' % (k, i) for k in range(2)] if models is None else models
        data_handler = data_handler or Obj(tag='handler %d' % i, kill=lambda: log.append(('kill', i)))
        data_transformer = data_transformer or 'trafo %d' % i
        mgr = Obj(models=list(models), tag=i, data_handler=data_handler, train=lambda **kw: log.append(('train', i, kw)), save=lambda *a, **kw: log.append(('save', i, a, kw)),
                  reconstruct_testdata=lambda **kw: log.append(('reconstruct', i, kw)))
        self.built.append(dict(config=config, restore=restore, handler=data_handler, trafo=data_transformer, models=list(models), subs=modified_sub_components, rebuild=allow_rebuild_base_sources))
        log.append(('build', i))
        return mgr, models, data_handler, data_transformer

    def load_class(self, name):
        log = self.log

        class Part:
            def __init__(self):
                self.name, self.kw = name, None
                log.append(('make', self))

            def configure(self, **kw):
                assert self.kw is None
                self.kw = kw

            def kill(self):
                log.append(('kill', self))

            def save(self, *a, **kw):
                log.append(('save', self, a, kw))
        return Part

    def run(self, *args, **kw):
        main = self.m.main
        return getattr(main, 'callback', main)(*args, **kw)

    def of(self, *kinds):
        return [e for e in self.log if e[0] in kinds]

    def at(self, kind):
        return [e[0] for e in self.log].index(kind)


@contract(CONTRACTS, ['train_model.main'])
def train(env):
    """a model is restored exactly if asked for and there; an existing one is
    never deleted without consent; the configured parts are then trained"""
    restore, exists = env.flag('restore'), env.choose('on disk', ['nothing', 'directory', 'model'])
    answer = env.flag('consent')
    ev = env.choose('evaluation', ['absent', 'none', 'given'])
    c = {'model_manager_settings': {'restore_model': restore, 'config': {}}, 'training_settings': {'num_training_iterations': 17}}
    if ev != 'absent':
        c['evaluation_module_settings'] = {'evaluation_module': None if ev == 'none' else 'my.Evaluation', 'config': {'a': 1}}
    s = Script(env, 'train_model', {'all': c}, answer)
    d = s.disk.path('models', 'm')
    c['model_manager_settings']['config']['manager_dir'] = d
    s.disk.touch('models/other/configuration.yaml')
    if exists != 'nothing':
        s.disk.touch('models/m/checkpoint.index')
    if exists == 'model':
        s.disk.touch('models/m/configuration.yaml')
    before = s.disk.snapshot()
    files = ['first.yaml', 'second.yaml']
    if exists == 'model' and not restore and not answer:
        env.raises('no consent', ValueError, lambda: s.run(files))
        env.concrete('nothing is deleted', s.disk.snapshot() == before and not s.of('delete'))
        env.concrete('nothing is built', not s.of('build', 'train'))
        return
    s.run(files)
    deleted = exists == 'model' and not restore
    env.concrete('deletes only what may be deleted', s.of('delete') == ([('delete', d)] if deleted else []))
    env.concrete('asks before', len(s.of('ask')) == int(deleted) and (not deleted or s.at('ask') < s.at('delete') < s.at('build')))
    env.concrete('default is no', all(e[1] is False for e in s.of('ask')))
    env.concrete('other models are kept', s.disk.listing() == sorted(f for f in before if not (deleted and f.startswith('models/m/'))))
    env.concrete('manager', len(s.built) == 1 and s.built[0]['config'] is c and s.built[0]['restore'] is (restore and exists == 'model') and s.built[0]['rebuild'] is True and s.built[0]['subs'] == {})
    t = s.of('train')
    env.concrete('training', len(t) == 1 and t[0][2]['config'] is c and t[0][2]['loss_module'] == 'loss module' and t[0][2]['num_training_iterations'] == 17)
    env.concrete('loss', [e[1] for e in s.of('loss')] == [c])
    made = [e[1] for e in s.of('make')]
    e = t[0][2]['evaluation_module']
    if ev == 'given':
        env.concrete('evaluation', made == [e] and e.name == 'my.Evaluation' and e.kw == {'config': {'a': 1}})
    else:
        env.concrete('no evaluation', e is None and not made)
    env.concrete('workers are stopped', s.log[-1] == ('kill', 0))


@contract(CONTRACTS, ['create_trafo_model.main'])
def trafo(env):
    """the transformer is made from the stated data and settings and saved; one
    that exists is only replaced with consent"""
    answer = env.flag('consent')
    exists = env.flag('exists')
    name = env.choose('name', ['trafo', 'trafo_v1.5'])
    c = {'data_trafo_settings': {'num_batches': 5, 'float_precision': 'float64', 'norm_constant': env.pos('norm constant')}, 'data_handler_settings': {'data_handler': 'modular.Handler', 'more': 3},
         'data_iterator_settings': {'trafo': {'batch_size': 3}, 'training': {'batch_size': 4}}}
    s = Script(env, 'create_trafo_model', {'all': c}, answer)
    env.patch(s.m, 'DataTransformer', s.load_class('trafo'))
    c['data_trafo_settings']['model_dir'] = s.disk.path('models', name)
    s.disk.touch('models/other')
    if exists:
        s.disk.touch('models/%s/configuration.yaml' % name)
    before = s.disk.snapshot()
    files = ['first.yaml', 'second.yaml']
    if exists and not answer:
        env.raises('no consent', ValueError, lambda: s.run(files))
        env.concrete('nothing is replaced', not s.of('save') and s.disk.snapshot() == before)
        return
    s.run(files)
    env.concrete('asks', len(s.of('ask')) == int(exists) and all(e[1] is False for e in s.of('ask')))
    made = [e[1] for e in s.of('make')]
    env.concrete('parts', sorted(p.name for p in made) == ['egenerator.data.handler.modular.Handler', 'trafo'])
    h, t = sorted(made, key=lambda p: p.name)
    env.concrete('data', h.kw == {'config': c['data_handler_settings']})
    env.concrete('transformer', sorted(t.kw) == ['data_handler', 'data_iterator_settings', 'float_precision', 'norm_constant', 'num_batches'] and t.kw['data_handler'] is h
                 and t.kw['data_iterator_settings'] == {'batch_size': 3} and t.kw['num_batches'] == 5 and t.kw['float_precision'] == 'float64')
    env.equal('constant', t.kw['norm_constant'], c['data_trafo_settings']['norm_constant'])
    v = s.of('save')
    env.concrete('saved', len(v) == 1 and v[0][1] is t and v[0][2] == (c['data_trafo_settings']['model_dir'],) and v[0][3] == {'overwrite': True})
    env.concrete('workers are stopped', s.log[-1] == ('kill', h))


def ensemble(env, s, files, reco):
    """every stated model is restored, in order, and the manager built from them"""
    env.concrete('one manager per file and one for all', len(s.built) == len(files) + 1)
    for i, f in enumerate(files):
        b = s.built[i]
        env.concrete('restored as configured', b['config'] is s.configs[f] and b['restore'] is True and b['rebuild'] is False)
    b = s.built[-1]
    last = s.built[-2]
    env.concrete('all models in their order', b['models'] == ['model %d of %d' % (k, i) for i in range(len(files)) for k in range(2)])
    env.concrete('combined', b['config'] is s.configs[reco] and b['restore'] is False and b['rebuild'] is False and b['handler'] is last['handler'] and b['trafo'] == last['trafo'])
    env.concrete('loss', [e[1] for e in s.of('loss')] in ([], [s.configs[reco]]))


@contract(CONTRACTS, ['export_manager.main'], bounded='up to 12 configuration files')
def export(env):
    """the ensemble of all stated models is saved together with the settings of
    the reconstruction; an existing directory is only deleted with consent"""
    n = env.choose('files', [1, 2, 12])
    files = ['config_%d.yaml' % i for i in range(n)]
    own = env.flag('own reconstruction file')
    exists, answer = env.flag('exists'), env.flag('consent')
    configs = {f: {'file': f} for f in files + ['reco.yaml']}
    s = Script(env, 'export_manager', configs, answer)
    d = s.disk.path('exported')
    s.disk.touch('other/configuration.yaml')
    if exists:
        s.disk.touch('exported/configuration.yaml')
    before = s.disk.snapshot()
    go = lambda: s.run(tuple(files), d, 'reco.yaml' if own else None)
    if exists and not answer:
        env.raises('no consent', ValueError, go)
        env.concrete('nothing is deleted', s.disk.snapshot() == before and not s.of('delete', 'save', 'copy'))
        return
    go()
    env.concrete('deletes only what may be deleted', s.of('delete') == ([('delete', d)] if exists else []) and len(s.of('ask')) == int(exists) and all(e[1] is False for e in s.of('ask')))
    env.concrete('other models are kept', s.disk.listing() == ['other/configuration.yaml'])
    reco = 'reco.yaml' if own else files[0]
    ensemble(env, s, files, reco)
    env.concrete('nothing is modified', all(b['subs'] == {} for b in s.built))
    v = s.of('save')
    env.concrete('saved once', len(v) == 1 and v[0][1] == n and tuple(v[0][2]) + tuple(v[0][3].values()) == (d,))
    env.concrete('settings', s.of('copy') == [('copy', reco, d + '/reco_config.yaml')])
    env.concrete('order', s.at('save') < s.at('copy') and (not exists or s.at('delete') < s.at('save')))


@contract(CONTRACTS, ['reconstruct_test_data.main'], bounded='up to 12 configuration files')
def reconstruct(env):
    """the ensemble of all stated models reconstructs the test data, its seeds,
    labels and data read by the modules of the reconstruction settings"""
    n = env.choose('files', [1, 2, 12])
    files = ['config_%d.yaml' % i for i in range(n)]
    own = env.flag('own reconstruction file')
    seeds = env.choose('seed', ['x_parameters', 'seed_a', ['seed_a'], ['x_parameters', 'seed_b', 'seed_a'], ['x_parameters']])
    restore, exists = env.flag('restore'), env.flag('exists')
    v = env.real('missing value')
    r = {'seed': seeds, 'seed_parameter_names': ['a', 'b'], 'seed_float_precision': 'float64', 'seed_missing_value': v, 'seed_missing_value_dict': {'b': 3}}
    label, data = env.flag('own labels'), env.flag('own data')
    if label:
        r['modified_label_module'] = {'label_module': 'my.Label', 'label_settings': {'l': 1}}
    if data:
        r['modified_data_module'] = {'data_module': 'my.Data', 'data_settings': {'d': 1}}
    reco = 'reco.yaml' if own else files[0]
    configs = {f: {'file': f} for f in files + ['reco.yaml']}
    configs[reco].update({'reconstruction_settings': r, 'model_manager_settings': {'restore_model': restore, 'config': {}}, 'data_handler_settings': {'misc_module': 'old', 'other': 1}})
    s = Script(env, 'reconstruct_test_data', configs)
    env.patch(s.m, 'SeedLoaderMiscModule', s.load_class('seeds'))
    d = configs[reco]['model_manager_settings']['config']['manager_dir'] = s.disk.path('m')
    s.disk.touch('m/configuration.yaml' if exists else 'm/other.yaml')
    before = s.disk.snapshot()
    go = lambda: s.run(tuple(files), 'reco.yaml' if own else None)
    if restore and not exists:
        env.raises('nothing to restore', ValueError, go)
        env.concrete('nothing is reconstructed', not s.of('reconstruct'))
        return
    go()
    ensemble(env, s, files, reco)
    names = [x for x in ([seeds] if isinstance(seeds, str) else seeds) if x != 'x_parameters']
    want = {}
    if names:
        want['misc_module'] = ('seeds', {'config_data': None, 'seed_names': names, 'seed_parameter_names': ['a', 'b'], 'float_precision': 'float64', 'missing_value': v, 'missing_value_dict': {'b': 3}})
    if label:
        want['label_module'] = ('egenerator.data.modules.labels.my.Label', {'config_data': None, 'l': 1})
    if data:
        want['data_module'] = ('egenerator.data.modules.data.my.Data', {'config_data': None, 'd': 1})
    for b in s.built[:-1]:
        got = b['subs']
        env.concrete('modified parts', list(got) == (['data_handler'] if want else []))
        got = got.get('data_handler', {})
        env.concrete('which', sorted(got) == sorted(want))
        for k in want:
            kw = dict(got[k].kw)
            if k == 'misc_module':
                env.equal('missing value', kw.pop('missing_value'), v)
                env.concrete('modified as stated', got[k].name == 'seeds' and kw == {q: w for q, w in want[k][1].items() if q != 'missing_value'})
            else:
                env.concrete('modified as stated', (got[k].name, kw) == want[k])
    for b, e in zip(s.built, s.built[1:-1]):
        env.concrete('every manager its own parts', all(b['subs']['data_handler'][k] is not e['subs']['data_handler'][k] for k in want))
    t = s.of('reconstruct')
    env.concrete('test data reconstructed', len(t) == 1 and t[0][1] == n and t[0][2] == {'config': configs[reco], 'loss_module': 'loss module'} and t[0][2]['config'] is configs[reco])
    env.concrete('files', s.disk.snapshot() == before)
