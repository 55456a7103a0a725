"""P15: checkpoint bookkeeping."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Disk, same, deep
CONTRACTS = []
MO = 'model.base.Model.'
META, STEPS = 'model_checkpoint.yaml', 'training/training_steps.yaml'


class Interrupted(BaseException):
    pass


class Proxy:
    def __init__(self, target, **kw):
        self.__dict__.update(kw)
        self.target_ = target

    def __getattr__(self, k):
        return getattr(self.target_, k)


class Lab:
    """models over the code under contract. In proofs tf.train.Checkpoint is
    replaced by its contract: restore assigns the values held when the file
    was written; concrete runs use the real one."""

    def __init__(self, env):
        self.env = env
        m = self.m = env.mod('model.base')
        c = self.c = env.mod('manager.component')
        disk = self.disk = Disk(env, m, c)
        self.fail, self.ops = None, []
        lab = self
        if not env.is_concrete:
            class Checkpoint:
                def __init__(self, step, model):
                    self.step, self.model = step, model

                def write(self, path):
                    disk.files[path + '.index'] = ('checkpoint', None)
                    disk.files[path + '.data-00000-of-00001'] = ('checkpoint', [v.numpy() for v in (self.step,) + self.model.variables])
                    return path

                def restore(self, path):
                    if path + '.index' not in disk.files or path + '.data-00000-of-00001' not in disk.files:
                        raise IOError('no checkpoint ' + path)
                    for v, x in zip((self.step,) + self.model.variables, disk.files[path + '.data-00000-of-00001'][1]):
                        v.assign(x)
                read = restore
            env.patch(m, 'tf', Proxy(m.tf, train=Obj(Checkpoint=Checkpoint)))

        def configure_derived(self, scale, name='x'):
            self._untracked_data['w'] = [m.tf.Variable(scale, name='w'), m.tf.Variable(scale, name='v', trainable=False)]
            return c.Configuration(class_string=c.misc.get_full_class_string_of_object(self), settings=dict(scale=scale), mutable_settings=dict(name=name), logger=NullLog()), {}, {}

        def init(self, logger=None):
            m.Model.__init__(self, logger=NullLog())
        self.cls = type('M', (m.Model,), dict(__init__=init, _configure_derived_class=configure_derived))
        env.patch(c.misc, 'load_class', lambda s: lab.cls)
        self.now = 0

    def new(self):
        x = self.cls()
        x.configure(scale=0.5)
        return x

    def ckpt(self, n):
        return 'model_checkpoint_%08d' % n

    def set(self, model, v):
        for i, w in enumerate(model._untracked_data['w']):
            w.assign(v + i)
        model.step.assign(self.now)
        self.now += 1

    def check(self, name, model, v, step):
        for i, w in enumerate(model._untracked_data['w']):
            self.env.equal('%s[%d]' % (name, i), w.numpy(), v + i)
        self.env.equal('%s step' % name, model.step.numpy(), step)

    def state(self, model, latest, kinds, values, base=0):
        """a directory with the given checkpoints"""
        meta = {'latest_checkpoint': latest, 'unprotected_checkpoints': {}, 'protected_checkpoints': {}}
        self.steps = {}
        self.disk.touch('other.txt')
        for n, k in kinds.items():
            if k is None:
                continue
            self.steps[n] = self.now
            self.set(model, values[n])
            model.checkpoint.write(self.disk.path(self.ckpt(n)))
            meta[k + '_checkpoints'][n] = {'creation_date': 'yesterday', 'time_stamp': 1.5, 'file_basename': self.ckpt(n), 'description': 'number %d' % n}
        if latest:
            self.disk.dump_yaml(META, meta)
        return meta

    def on_disk(self):
        return sorted({int(f[17:25]) for f in self.disk.listing() if f.startswith('model_checkpoint_')})

    def complete(self, n):
        fs = [f for f in self.disk.listing() if f.startswith(self.ckpt(n) + '.')]
        return self.ckpt(n) + '.index' in fs and len(fs) >= 2

    def listed(self):
        if META not in self.disk.listing():
            return {}
        meta = self.disk.load_yaml(META)
        out = {n: ('unprotected', i) for n, i in meta['unprotected_checkpoints'].items()}
        out.update({n: ('protected', i) for n, i in meta['protected_checkpoints'].items()})
        return out

    def loadable(self, name, values):
        """every listed checkpoint loads back what was saved under its number"""
        for n in sorted(self.listed()):
            x = self.new()
            x.load_weights(self.disk.path(), n)
            self.check('%s: checkpoint %s' % (name, list(values).index(n)), x, values[n], self.steps[n])


def states(env, most):
    base = env.choose('offset', [0, 7])
    n = env.choose('earlier checkpoints', list(range(most + 1)))
    kinds = {base + i: env.choose('checkpoint %d' % i, ['unprotected', 'protected', None] if i < n else ['unprotected', 'protected']) for i in range(1, n + 1)}
    latest = base + n if n else 0
    return latest, kinds


BOUND = 'up to 3 earlier checkpoints, max_keep up to 2'


@contract(CONTRACTS, [MO + 'save_weights', MO + 'load_weights'], bounded=BOUND, time=90, trials=30)
def one_save(env):
    """from any valid state of the directory: the save is recorded under the
    next number, only the oldest unprotected checkpoints beyond max_keep go,
    the record lists exactly what is on disk, and everything listed loads"""
    lab = Lab(env)
    lab.disk.enter(env.choose('directory', ['model', 'run 1']))
    model = lab.new()
    latest, kinds = states(env, 3)
    values = {n: env.real('w') for n in list(kinds) + [latest + 1]}
    lab.state(model, latest, kinds, values)
    before = lab.listed()
    keep, protected = env.choose('max_keep', [1, 2]), env.flag('protected')
    lab.steps[latest + 1] = lab.now
    lab.set(model, values[latest + 1])
    description = env.choose('description', [None, 'text'])
    model.save_weights(lab.disk.path(), max_keep=keep, protected=protected, description=description)
    after = lab.listed()
    new = latest + 1
    unprot = sorted(n for n, (k, _) in before.items() if k == 'unprotected')
    gone = set() if protected else set((unprot + [new])[:-keep])
    env.concrete('numbers', sorted(after) == sorted((set(before) | {new}) - gone), (before, after))
    env.concrete('the newest number', lab.disk.load_yaml(META)['latest_checkpoint'] == new)
    env.concrete('kind of the new checkpoint', after[new][0] == ('protected' if protected else 'unprotected') and after[new][1]['description'] == description)
    env.concrete('earlier entries are unchanged', all(after[n] == before[n] for n in before if n in after))
    env.concrete('the record lists exactly the checkpoints on disk', lab.on_disk() == sorted(after), lab.disk.listing())
    env.concrete('complete files', all(lab.complete(n) for n in after))
    env.concrete('other files are left alone', [f for f in lab.disk.listing() if not f.startswith('model_checkpoint_')] == sorted([META, 'other.txt']), lab.disk.listing())
    lab.check('the model keeps its weights', model, values[new], lab.steps[new])
    lab.loadable('saved', values)
    x = lab.new()
    x.load_weights(lab.disk.path())
    lab.check('the newest by default', x, values[new], lab.steps[new])


@contract(CONTRACTS, [MO + 'save_weights', MO + 'load_weights'], bounded='histories of 3 saves', time=60, trials=20)
def histories(env):
    """a default history keeps the protected and the three newest others"""
    lab = Lab(env)
    model = lab.new()
    values, lab.steps, kinds = {}, {}, {}
    for n in range(1, 7):
        values[n] = env.real('w')
        lab.steps[n] = lab.now
        lab.set(model, values[n])
        kinds[n] = n == 2 or (n in (3, 5) and env.flag('protected %d' % n))
        model.save_weights(lab.disk.path(), protected=kinds[n])
        want = sorted([k for k in kinds if kinds[k]] + [k for k in kinds if not kinds[k]][-3:])
        env.concrete('kept after save %d' % n, sorted(lab.listed()) == want and lab.on_disk() == want, (lab.listed(), want))
    lab.loadable('saved', values)
    if env.flag('continue after loading'):
        other = lab.new()
        other.load_weights(lab.disk.path(), want[0])
        lab.check('an old checkpoint', other, values[want[0]], lab.steps[want[0]])
        values[7], lab.steps[7] = values[want[0]], lab.steps[want[0]]
        other.save_weights(lab.disk.path(), protected=True)
        env.concrete('numbers continue', sorted(lab.listed()) == sorted(want + [7]))
        lab.loadable('saved again', values)


@contract(CONTRACTS, [MO + 'save_weights', MO + 'load_weights', MO + 'update_num_training_steps'], bounded=BOUND, trials=30)
def refusals(env):
    """a refused save leaves the directory as it was"""
    lab = Lab(env)
    model = lab.new()
    latest, kinds = states(env, 2)
    values = {n: env.real('w') for n in list(kinds) + [latest + 1]}
    meta = lab.state(model, latest, kinds, values)
    case = env.choose('case', ['changed model', 'file exists', 'already listed', 'no training history'])
    run, error = (lambda: model.save_weights(lab.disk.path(), max_keep=1)), Exception
    if case == 'changed model':
        model._untracked_data['more'] = lab.m.tf.Variable(1.)
        error = ValueError
    elif case == 'file exists':
        lab.disk.touch(lab.ckpt(latest + 1) + '.index')
        error = IOError
    elif case == 'already listed':
        meta[env.choose('as', ['protected', 'unprotected']) + '_checkpoints'][latest + 1] = {'file_basename': lab.ckpt(latest + 1)}
        lab.disk.dump_yaml(META, meta)
        error = KeyError
    else:
        run = lambda: model.save_weights(lab.disk.path(), max_keep=1, num_training_steps=3)
        error = IOError
    before = lab.disk.snapshot()
    env.raises(case, error, run)
    env.concrete('the directory is unchanged', lab.disk.snapshot() == before)
    for n in (0, latest + 2):
        if n not in kinds:
            env.raises('unknown checkpoints are refused', (KeyError, IOError), lambda: model.load_weights(lab.disk.path(), n))
    env.raises('an empty directory', IOError, lambda: model.load_weights(lab.disk.path('nowhere')))


def interruptible(lab, modules):
    """count the file operations and interrupt the one asked for. An
    interrupted write leaves a file without content."""
    env, m = lab.env, lab.m
    lab.count, lab.at = 0, None

    def op(name, f, before=None):
        def g(*a, **k):
            if lab.at is not None and lab.count == lab.at:
                lab.at = -1
                if before:
                    before(*a, **k)
                raise Interrupted(name)
            lab.count += 1
            return f(*a, **k)
        return g
    os_, open_, yaml = m.os, m.__dict__.get('open', open), m.yaml
    opn = lambda path, mode='r', *a, **k: (open_ if 'r' in mode else op('open', open_))(path, mode, *a, **k)
    env.patch(m, 'os', Proxy(os_, **{n: op(n, getattr(os_, n)) for n in ('remove', 'replace', 'rename', 'unlink', 'makedirs')}))
    env.patch(m, 'open', opn)
    env.patch(m, 'yaml', Proxy(yaml, **{n: op(n, getattr(yaml, n)) for n in ('dump', 'safe_dump')}))
    for x in modules:
        x._untracked_data['checkpoint'] = Proxy(x.checkpoint, write=op('write', x.checkpoint.write, before=lambda path: lab.disk.touch(path.split('/')[-1] + '.data-00000-of-00001')))


@contract(CONTRACTS, [MO + 'save_weights', MO + 'load_weights'], bounded=BOUND + ', interruption at any file operation', time=90, trials=40)
def interrupted_saves(env):
    """an interruption at any file operation of a save leaves a record that is
    readable, lists no checkpoint whose files are gone, and has every
    protected checkpoint and a newest one to go on from"""
    lab = Lab(env)
    model = lab.new()
    latest, kinds = states(env, 2)
    values = {n: env.real('w') for n in list(kinds) + [latest + 1]}
    lab.state(model, latest, kinds, values)
    before = lab.listed()
    new = latest + 1
    lab.steps[new] = lab.now
    lab.set(model, values[new])
    interruptible(lab, [model])
    keep, protected = env.choose('max_keep', [1, 2]), env.flag('protected')
    lab.at = env.choose('interrupted operation', list(range(9)))
    try:
        model.save_weights(lab.disk.path(), max_keep=keep, protected=protected)
        done = True
    except Interrupted:
        done = False
    env.concrete('an operation was interrupted', done == (lab.at != -1))
    lab.at = None
    if not latest and not lab.listed():
        return
    after = lab.listed()
    env.concrete('complete files for everything listed', all(lab.complete(n) for n in after))
    env.concrete('protected checkpoints stay', all(after.get(n) == before[n] for n in before if before[n][0] == 'protected'))
    env.concrete('either the record before or the record after', set(after) == set(before) or new in after)
    env.concrete('the newest recorded is listed', lab.disk.load_yaml(META)['latest_checkpoint'] in after)
    lab.loadable('after the interruption', values)
    x = lab.new()
    x.load_weights(lab.disk.path())
    top = max(after)
    lab.check('the newest by default', x, values[top], lab.steps[top])


def train_state(env, lab, most=2):
    n = env.choose('earlier trainings', list(range(most + 1)))
    meta = {'latest_step': n, 'training_steps': {i: {'creation_date': 'then', 'time_stamp': 2.5, 'num_training_steps': 10 * i} for i in range(1, n + 1)}}
    for i in range(1, n + 1):
        lab.disk.touch('training/step_%04d/training_config.yaml' % i)
        lab.disk.dump_yaml('training/step_%04d/training_config.yaml' % i, {'n': i})
    if n:
        lab.disk.dump_yaml(STEPS, meta)
    return n, meta


class Part:
    def __init__(self, lab, name):
        self.lab, self.name, self.saved = lab, name, []

    def save(self, path, *a, **k):
        self.saved.append((path, a, k))


@contract(CONTRACTS, [MO + 'save_training_settings', MO + 'update_num_training_steps', MO + '_save'], bounded='up to 2 earlier trainings', trials=20)
def training_history(env):
    """trainings are appended in order with their settings and components, and
    a save updates only the number of steps of the current one"""
    lab = Lab(env)
    model = lab.new()
    n, meta = train_state(env, lab)
    setting, steps = env.real('setting'), env.choose('steps', [0, 7, None])
    parts = {'loss_module': Part(lab, 'loss'), 'evaluation_module': Part(lab, 'evaluation')}
    config = {'training_settings': {'rate': setting, 'list': [1, 'x']}, 'other': None}
    before = {f: lab.disk.content(f) for f in lab.disk.listing() if f != STEPS}
    how = env.choose('by', ['settings', 'save'])
    new = {'config': config, 'components': parts}
    if how == 'settings':
        model.save_training_settings(dir_path=lab.disk.path(), new_training_settings=new)
    else:
        model._save(lab.disk.path(), protected=True, description='Starting Training', new_training_settings=new, num_training_steps=None)
        env.concrete('the weights are saved as well', sorted(lab.listed()) == [1] and lab.listed()[1][0] == 'protected' and lab.listed()[1][1]['description'] == 'Starting Training')
    got = lab.disk.load_yaml(STEPS)
    env.concrete('appended', got['latest_step'] == n + 1 and sorted(got['training_steps']) == list(range(1, n + 2)))
    for i in range(1, n + 1):
        env.concrete('earlier trainings are unchanged', got['training_steps'][i] == meta['training_steps'][i])
    env.concrete('a new training starts with no steps', got['training_steps'][n + 1]['num_training_steps'] == 0)
    step_dir = 'training/step_%04d' % (n + 1)
    same(env, 'stored settings', lab.disk.load_yaml(step_dir + '/training_config.yaml'), config)
    for k, p in parts.items():
        env.concrete('component %s is stored once' % k, [q[0] for q in p.saved] == [lab.disk.path(step_dir, k)])
    env.concrete('earlier files are unchanged', all(lab.disk.content(f) == c for f, c in before.items()))
    for j in range(2):
        model.save_weights(lab.disk.path(), num_training_steps=None if steps is None else steps + j)
        g2 = lab.disk.load_yaml(STEPS)
        want = deep(got)
        if steps is not None:
            want['training_steps'][n + 1]['num_training_steps'] = steps + j
        env.concrete('only the steps of the current training change (%d)' % j, g2 == want, (g2, want))
    env.concrete('no further files', sorted(f for f in lab.disk.listing() if f.startswith('training')) == sorted([STEPS] + ['training/step_%04d/training_config.yaml' % i for i in range(1, n + 2)]))


@contract(CONTRACTS, [MO + 'save_training_settings', MO + 'update_num_training_steps'], bounded='up to 2 earlier trainings, interruption at any file operation', trials=20)
def training_history_kept(env):
    """refused or interrupted, the history before is still there"""
    lab = Lab(env)
    model = lab.new()
    n, meta = train_state(env, lab)
    case = env.choose('case', ['directory exists', 'already listed', 'interrupted', 'interrupted update', 'no history'])
    new = {'config': {'a': 1}, 'components': {'loss_module': Part(lab, 'loss')}}
    run = lambda: model.save_training_settings(lab.disk.path(), new)
    if case == 'no history':
        if n == 0:
            env.raises('nothing to update', IOError, lambda: model.update_num_training_steps(lab.disk.path(), 3))
            env.concrete('nothing written', lab.disk.listing() == [])
        return
    if case.startswith('interrupted'):
        if case == 'interrupted update':
            run = lambda: model.update_num_training_steps(lab.disk.path(), 3)
        if n == 0:
            return
        interruptible(lab, [])
        lab.at = env.choose('interrupted operation', list(range(7)))
        try:
            run()
        except Interrupted:
            pass
        lab.at = None
        got = lab.disk.load_yaml(STEPS)
        for i in range(1, n + 1):
            w = deep(meta['training_steps'][i])
            ok = [w] + ([dict(w, num_training_steps=3)] if case == 'interrupted update' and i == n else [])
            env.concrete('training %d is still recorded' % i, got['training_steps'].get(i) in ok, got)
        env.concrete('the current training is recorded', got['latest_step'] in got['training_steps'])
        return
    if case == 'directory exists':
        lab.disk.touch('training/step_%04d/training_config.yaml' % (n + 1))
        error = IOError
    else:
        if not n:
            return
        meta['training_steps'][n + 1] = meta['training_steps'][n]
        lab.disk.dump_yaml(STEPS, meta)
        error = KeyError
    before = lab.disk.snapshot()
    env.raises(case, error, run)
    env.concrete('files are unchanged', lab.disk.snapshot() == before)


@contract(CONTRACTS, [MO + '_configure', MO + 'load_weights', MO + '_save', MO + '_load', 'manager.component.BaseComponent.save', 'manager.component.BaseComponent.load'], trials=15)
def saved_and_loaded_models(env):
    """a saved model is loaded with its configuration and weights"""
    lab = Lab(env)
    model = lab.new()
    v, u = env.real('w'), env.real('u')
    lab.steps = {1: lab.now, 2: lab.now + 1}
    lab.set(model, v)
    model.save(lab.disk.path('model'), protected=env.flag('protected'), description='text')
    lab.set(model, u)
    model.save_weights(lab.disk.path('model'))
    n = env.choose('checkpoint', [None, 1, 2])
    x = lab.cls()
    x.load(lab.disk.path('model'), **({} if n is None else dict(checkpoint_number=n)))
    lab.check('weights', x, v if n == 1 else u, lab.steps[n or 2])
    same(env, 'configuration', x.configuration.dict, model.configuration.dict)
    lab.check('the saved model keeps its weights', model, u, lab.steps[2])
    env.raises('models are not overwritten', IOError, lambda: model.save(lab.disk.path('model')))
    # the loaded model continues
    lab.set(x, v)
    x.save_weights(lab.disk.path('model'), max_keep=5)
    y = lab.new()
    y.load_weights(lab.disk.path('model'))
    lab.check('continued', y, v, 2)


@contract(CONTRACTS, ['model.multi_source.base.MultiSource.save_weights', 'model.multi_source.base.MultiSource.load_weights', 'manager.base.BaseModelManager.save_weights',
                      'manager.base.BaseModelManager.load_weights', 'manager.base.BaseModelManager.save_training_settings'], bounded='two models', trials=15)
def composed_models(env):
    """a model made of models forwards every call to each of them, to the
    directory of its name, with the options given"""
    which = env.choose('class', ['MultiSource', 'BaseModelManager'])
    mod = env.mod('model.multi_source.base' if which == 'MultiSource' else 'manager.base')
    M = env.mod('model.base').Model
    calls = []

    class Sub(M):
        def __init__(self, name):
            self.n = name

        def save_weights(self, *a, **k):
            calls.append(('save', self.n, bound(('dir_path', 'max_keep', 'protected', 'description', 'num_training_steps'), (None, 3, False, None, None), a, k)))

        def load_weights(self, *a, **k):
            calls.append(('load', self.n, bound(('dir_path', 'checkpoint_number'), (None, None), a, k)))

        def save_training_settings(self, *a, **k):
            calls.append(('settings', self.n, bound(('dir_path', 'new_training_settings'), (None, None), a, k)))

    def bound(names, defaults, a, k):
        return dict(dict(zip(names, defaults)), **dict(dict(zip(names, a)), **k))
    K = getattr(mod, which)
    x = type('Composed', (K,), dict(__init__=lambda self: None))()
    names = {'MultiSource': ['cascade', 'noise'], 'BaseModelManager': ['models_0000', 'models_0001']}[which]
    object.__setattr__(x, '_sub_components', dict({n: Sub(n) for n in names}, data_trafo=object(), data_handler=object()))
    opts = dict(max_keep=env.choose('max_keep', [1, 3, 9]), protected=env.flag('protected'), description=env.choose('description', [None, 'text']), num_training_steps=env.choose('steps', [None, 0, 5]))
    x.save_weights('some/dir', **opts)
    env.concrete('saved', sorted(calls, key=str) == sorted([('save', n, dict(opts, dir_path='some/dir/' + n)) for n in names], key=str), calls)
    del calls[:]
    x.save_weights('some/dir')
    env.concrete('defaults', all(c[2]['max_keep'] == 3 and c[2]['protected'] is False for c in calls) and len(calls) == 2)
    del calls[:]
    c = env.choose('checkpoint', [None, 0, 4])
    x.load_weights('some/dir', checkpoint_number=c)
    env.concrete('loaded', sorted(calls, key=str) == sorted([('load', n, dict(dir_path='some/dir/' + n, checkpoint_number=c)) for n in names], key=str), calls)
    if which == 'BaseModelManager':
        del calls[:]
        s = {'config': {'a': 1}, 'components': {}}
        x.save_training_settings('some/dir', s)
        env.concrete('settings', sorted(calls, key=str) == sorted([('settings', n, dict(dir_path='some/dir/' + n, new_training_settings=s)) for n in names], key=str), calls)


MS = 'model.multi_source.base.MultiSource.'


@contract(CONTRACTS, [MS + '_save', MS + '_load', MS + '_configure_derived_class', MO + '_configure', 'manager.component.BaseComponent.save', 'manager.component.BaseComponent.load'], trials=15)
def saved_and_loaded_sources(env):
    """a source made of other sources is loaded with all of them and its weights"""
    lab = Lab(env)
    m = env.mod('model.multi_source.base')
    if not env.is_concrete:
        env.patch(m, 'tf', Proxy(m.tf, compat=Obj(v1=Obj(global_variables=list))))
    trafo = env.flag('transformer')
    asked = []

    def mapping(self, config, base_sources):
        asked.append(sorted(base_sources))
        return list(config['names']), {'s%d' % i: b for i, b in enumerate(config['sources'])}

    def init(self, logger=None):
        m.MultiSource.__init__(self, logger=NullLog())
    multi = type('S', (m.MultiSource,), dict(__init__=init, get_parameters_and_mapping=mapping, __module__='somewhere'))
    real = env.mod('misc')
    env.patch(lab.c.misc, 'load_class', lambda s: {real.get_full_class_string_of_object(k): k for k in (multi, lab.cls)}.get(s, multi if s.endswith('S') else lab.cls))
    config = {'names': ['a', 'b', 'c'], 'sources': ['one', 'two', 'one']}
    bases = {k: lab.new() for k in ('one', 'two')}
    x = multi()
    x.configure(base_sources=dict(bases), config=config, name='the name', **(dict(data_trafo=lab.new()) if trafo else {}))
    v = {k: env.real(k) for k in bases}
    for k, q in bases.items():
        lab.set(q, v[k])
    x.save(lab.disk.path('model'))
    for k, q in bases.items():
        lab.set(q, env.real('later'))
    y = multi()
    y.load(lab.disk.path('model'))
    env.concrete('the same parts', sorted(y.sub_components) == sorted(list(bases) + (['data_trafo'] if trafo else [])) == sorted(x.sub_components))
    env.concrete('composed of the sources only', all(q == sorted(bases) for q in asked) and len(asked) == 2)
    for i, k in enumerate(bases):
        lab.check('weights', y.sub_components[k], v[k], i + 0 if not trafo else i)
    same(env, 'configuration', y.configuration.dict, x.configuration.dict)
    env.concrete('names', y.is_configured and y._untracked_data['sources'] == x._untracked_data['sources'] == {'s0': 'one', 's1': 'two', 's2': 'one'} and y.parameter_names == ['a', 'b', 'c'] and y.name == 'the name')
