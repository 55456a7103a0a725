"""P17: reconstruction tray and function cache."""
from pyvc.con import contract
from contracts.common import Obj
CONTRACTS = []
T = 'manager.reconstruction.tray.'
M = 'manager.reconstruction.tray'


class Step:
    """a module under its own contract: returns a new result"""
    made = []

    def __init__(self, manager=None, loss_module=None, function_cache=None, **settings):
        self.args, self.settings, self.calls = (manager, loss_module, function_cache), settings, []
        Step.made.append(self)

    def execute(self, data_batch, results):
        self.calls.append((data_batch, dict(results)))
        r = {'value': (self.settings.get('tag'), len(self.calls))}
        if self.settings.get('bad'):
            r['runtime'] = 0.
        return r


class Clock:
    """monotonic clock"""

    def __init__(self, env, n):
        self.t = [env.real('t0')]
        for _ in range(n):
            self.t.append(self.t[-1] + env.pos('dt'))
        self.i = 0

    def default_timer(self):
        self.i += 1
        return self.t[self.i - 1]


def build(env):
    m = env.mod(M)
    Step.made = []
    loaded = []

    def load(path):
        loaded.append(path)
        return Step
    env.patch(m.misc, 'load_class', load)
    return m, m.ReconstructionTray('manager', 'loss'), loaded


@contract(CONTRACTS, [T + 'ReconstructionTray.__init__', T + 'ReconstructionTray.add_module', T + 'ReconstructionTray.execute'],
          bounded='up to 4 steps, any mixture of given and automatic names, several executions')
def order(env):
    """steps run once each in the order added, see exactly the results of the
    earlier steps of the same execution, and are stored under their names with
    their run time"""
    m, tray, loaded = build(env)
    k = env.choose('steps', [0, 1, 2, 4])
    names, same = [], k > 1 and env.flag('same module again')
    for i in range(k):
        if env.flag('named'):
            tray.add_module('Mod%d' % i, name='step %d' % i, tag=i)
            names.append('step %d' % i)
        else:
            tray.add_module('Mod%d' % (0 if same else i), tag=i)
            names.append('module_%04d' % i)
    env.concrete('one module per step', len(Step.made) == k and loaded == ['egenerator.manager.reconstruction.modules.Mod%d' % (0 if same and n.startswith('module') else i) for i, n in enumerate(names)])
    env.concrete('modules share manager, loss and cache', all(s.args == ('manager', 'loss', tray.function_cache) for s in Step.made))
    env.concrete('settings are passed on', [s.settings for s in Step.made] == [dict(tag=i) for i in range(k)])
    runs = env.choose('executions', [1, 2])
    clock = Clock(env, 2 * k * runs + 1)
    env.patch(m.timeit, 'default_timer', clock.default_timer)
    outs = [tray.execute('batch %d' % r) for r in range(runs)]
    for r, out in enumerate(outs):
        env.concrete('one result per step, in order', len(out) == k and [v['value'][0] for v in out.values()] == list(range(k)))
        keys = list(out)
        env.concrete('given names are kept, others tell the position', names == keys)
        for i, s in enumerate(Step.made):
            batch, seen = s.calls[r]
            env.concrete('step gets the data', batch == 'batch %d' % r)
            env.concrete('step sees all earlier results and no others', list(seen) == keys[:i] and all(seen[n] is out[n] for n in seen))
            base = 2 * k * r + 2 * i
            env.equal('run time of step', out[keys[i]]['runtime'], clock.t[base + 1] - clock.t[base])
            env.concrete('result is that of the step', out[keys[i]]['value'] == (i, r + 1))
    env.concrete('each step ran once per execution', all(len(s.calls) == runs for s in Step.made))
    env.concrete('results of executions are separate', runs == 1 or outs[0] is not outs[1])


@contract(CONTRACTS, [T + 'ReconstructionTray.add_module', T + 'ReconstructionTray.execute'])
def rejected(env):
    """a name cannot be used twice (also not one that was given automatically),
    a rejected step changes nothing, and results must not use the reserved key"""
    m, tray, loaded = build(env)
    first = env.choose('first', ['a', None, 'module_0001'])
    tray.add_module('X', name=first, tag=0)
    tray.add_module('Y', name='b', tag=1)
    used = tray.module_names[0]
    which = env.choose('repeated', [used, 'b'])
    env.raises('duplicate name', ValueError, lambda: tray.add_module('Z', name=which, tag=2))
    out = tray.execute('d')
    env.concrete('rejected step is not run', len(out) == 2 and [v['value'][0] for v in out.values()] == [0, 1])
    tray.add_module('W', name='w', tag=3, bad=True)
    env.raises('reserved key', ValueError, lambda: tray.execute('d'))


def named(name):
    f = lambda: None
    f.__name__ = name
    return f


@contract(CONTRACTS, [T + 'FunctionCache.__init__', T + 'FunctionCache.add', T + 'FunctionCache.get'],
          bounded='up to 3 stored functions over 2 names and arbitrary settings of 2 entries')
def cache(env):
    """a cached function is returned exactly for its own name and settings;
    adding it again is an error and keeps the first"""
    m = env.mod(M)
    c = m.FunctionCache()
    stored = []
    n = env.choose('additions', [0, 1, 3])
    for i in range(n):
        name = env.choose('name', ['f', 'g'])
        st = dict(fit=[env.flag('fit')], seed=env.choose('seed', ['x', None]))
        f = named(name)
        f.tag = i
        if any(s[0] == name and s[1] == st for s in stored):
            env.raises('added twice', KeyError, lambda: c.add(f, st))
        else:
            c.add(f, st)
            stored.append((name, st, f))
    for name in ('f', 'g', 'h'):
        for fit in (True, False):
            for seed in ('x', None):
                q = dict(fit=[fit], seed=seed)
                want = [s[2] for s in stored if s[0] == name and s[1] == q]
                got = c.get(name, q)
                env.concrete('cached function for exactly these settings', got is (want[0] if want else None))
    env.concrete('other setting keys are other settings', c.get('f', {}) is None and c.get('f', dict(fit=[True])) is None and
                 c.get('f', dict(fit=[True], seed='x', more=1)) is None)
    env.concrete('caches are separate', m.FunctionCache().get('f', dict(fit=[True], seed='x')) is None)


R = 'manager.reconstruction.modules.'
MODULES = {
    'reconstruction.Reconstruction': dict(seed_tensor_name='x_seed'), 'covariance.CovarianceMatrix': dict(reco_key='reco'), 'fit_quality.GoodnessOfFit': dict(reco_key='reco'),
    'opening_angle.CircularizedAngularUncertainty': dict(reco_key='reco'), 'mcmc.MarkovChainMonteCarlo': dict(reco_key='reco', seed_tensor_name='x_seed'),
    'visualization.Visualize1DLikelihoodScan': dict(reco_key='reco', seed_tensor_name='x_seed', plot_file_template='plot_{parameter}'),
}


class Loss(Obj):
    """equal losses are the same loss"""

    def __repr__(self):
        return 'loss'


class Manager:
    """makes named functions that remember their settings"""

    def __init__(self, m, models, tensors):
        self.made, self.m = [], m
        self.models, self.configuration = [models], Obj(config={'config': {'I3ParticleMapping': {'zenith': 'zenith', 'azimuth': 'azimuth'}}})
        spec = lambda: (m.tf.TensorSpec(shape=[None, 4], dtype=m.tf.float64), m.tf.TensorSpec(shape=[None, 2], dtype=m.tf.float64))
        self.data_handler = Obj(tensors=tensors, get_data_set_signature=spec)
        tensor = Obj(dtype='float64', trafo_log=[False] * 4)
        self.data_trafo = Obj(data={'tensors': {'x_parameters': tensor, 'y_parameters': Obj(dtype='float32', trafo_log=[False] * 4)}})
        for kind in ('parameter_loss_function', 'loss_and_gradients_function', 'hessian_function', 'opg_estimate_function', 'model_tensors_function'):
            setattr(self, 'get_' + kind, self.maker(kind))

    def maker(self, kind):
        def make(**kw):
            f = named(kind)
            f.settings = kw
            self.made.append(f)
            return f
        return make


@contract(CONTRACTS, [R + k + '.__init__' for k in MODULES] + [T + 'FunctionCache.add', T + 'FunctionCache.get'])
def sharing(env):
    """steps with the same settings share their functions; a step never gets a
    function made for another loss, other fitted parameters, another space,
    another parameter tensor or another seed"""
    kind = env.choose('module', sorted(MODULES))
    cls = kind.split('.')[1]
    m = env.mod(R + kind.split('.')[0])
    index = Obj(get_index=lambda n: ['zenith', 'azimuth', 'energy', 'time'].index(n))
    tensors = Obj(get_index=lambda n: ['x_pulses', 'x_pulses_ids', 'x_dom_charge', 'x_parameters', 'y_parameters', 'x_seed', 'y_seed'].index(n))
    mgr = Manager(m, index, tensors)
    cache = env.mod(M).FunctionCache()
    losses = [Loss(), Loss()]
    full = dict(MODULES[kind], loss_module=losses[0], fit_paramater_list=[True] * 4, minimize_in_trafo_space=True, parameter_tensor_name='x_parameters')
    # the first step may have any settings the second one has not
    other = {'loss_module': losses[1], 'fit_paramater_list': [True, True, False, True], 'minimize_in_trafo_space': False, 'parameter_tensor_name': 'y_parameters', 'seed_tensor_name': 'y_seed'}
    change = env.choose('difference', [None] + sorted(other))
    extra = {}
    if cls == 'Reconstruction':
        extra = {'reco_optimizer_interface': env.choose('interface', ['scipy', 'spherical_opt'])}
    if cls == 'GoodnessOfFit':
        extra = {'add_per_dom_calculation': env.flag('per module'), 'normalize_by_total_charge': env.flag('normalised')}

    def step(s):
        """the functions of a step"""
        before = len(mgr.made)
        k = dict(s)
        x = getattr(m, cls)(mgr, k.pop('loss_module'), cache, **k, **extra)
        return x, [v for v in vars(x).values() if getattr(v, 'settings', None) is not None], len(mgr.made) - before
    first = dict(full)
    if change in full and not (cls == 'CovarianceMatrix' and change == 'fit_paramater_list'):
        first[change] = other[change]
    a, fa, na = step(first)
    b, fb, nb = step(full)
    c, fc, nc = step(full)
    env.concrete('shared by equal steps', nc == 0 and len(fb) == len(fc) and all(f is g for f, g in zip(fb, fc)))
    if first == full:
        env.concrete('shared by equal first steps', nb == 0 and len(fa) == len(fb) and all(f is g for f, g in zip(fa, fb)))
    for f in mgr.made:
        if f.__name__ != 'model_tensors_function':
            env.concrete('as many columns as fitted parameters', list(f.settings['input_signature'][0].shape)[1] == sum(f.settings['fit_paramater_list']))
    for s, fs in ((first, fa), (full, fb)):
        for f in fs:
            k = f.settings
            if f.__name__ == 'model_tensors_function':
                continue
            env.concrete('its loss', k['loss_module'] is s['loss_module'])
            env.concrete('its parameter tensor', k.get('parameter_tensor_name', 'x_parameters') == s['parameter_tensor_name'])
            if 'seed_tensor_name' in s and cls != 'Reconstruction':
                env.concrete('its seed', k.get('seed') == s['seed_tensor_name'])
            if cls not in ('Reconstruction', 'Visualize1DLikelihoodScan'):       # scans: P16 scan_curves
                env.concrete('its space', k.get('minimize_in_trafo_space', True) is s['minimize_in_trafo_space'])


G = 'manager.source.SourceManager.get_'


@contract(CONTRACTS, [G + k for k in ('parameter_loss_function', 'loss_and_gradients_function', 'hessian_function', 'opg_estimate_function')])
def names(env):
    """functions are stored under the name by which they are looked up"""
    from contracts.common import subclass
    kind = env.choose('function', ['parameter_loss_function', 'loss_and_gradients_function', 'hessian_function', 'opg_estimate_function'])
    m = env.mod('manager.source')
    x = subclass(m.SourceManager, data_handler=Obj(get_data_set_signature=lambda: ()), data_trafo=Obj(), models=[], _untracked_data={})
    sig = (m.tf.TensorSpec(shape=[None, 3], dtype=m.tf.float64), (m.tf.TensorSpec(shape=[None, 2], dtype=m.tf.float64),), m.tf.TensorSpec(shape=[None, 3], dtype=m.tf.float64))
    f = getattr(x, 'get_' + kind)(loss_module=Loss(), input_signature=sig, fit_paramater_list=[True] * 3)
    env.concrete('name', f.__name__ == kind)


V = R + 'visualization.Visualize1DLikelihoodScan.'


@contract(CONTRACTS, [V + '__init__', V + 'execute', T + 'ReconstructionTray.execute'], bounded='up to 3 events')
def scans(env):
    """likelihood scans are made of every event around its best fit and truth,
    as any other step of the tray"""
    m = env.mod(R + 'visualization')
    tensors = Obj(get_index=lambda n: ['x_data', 'x_parameters'].index(n))
    mgr = Manager(m, Obj(), tensors)
    mgr.data_trafo.transform = lambda data, tensor_name, **k: given.append((data, tensor_name)) or ('trafo', len(given))
    calls, given = [], []
    env.patch(m.Visualize1DLikelihoodScan, 'make_1d_llh_scans', lambda self, **kw: calls.append(kw))
    tray = env.mod(M).ReconstructionTray(mgr, 'loss')
    env.patch(env.mod(M).misc, 'load_class', lambda p: Step if p.endswith('Fit') else m.Visualize1DLikelihoodScan)
    Step.made = []
    tray.add_module('Fit', name='reco')
    Step.made[0].execute = lambda d, r: {'result_trafo': ('best fit', d[0])}
    tray.add_module('Scan', name='scan', reco_key='reco', seed_tensor_name='x_seed', plot_file_template='plot_{event_counter}_{parameter}', fit_paramater_list=[True] * 4)
    n = env.choose('events', [1, 3])
    for i in range(n):
        truth = env.tensor('truth', [1, 4], np_like=True, dtype='float64')
        out = tray.execute(('data %d' % i, truth))
        env.concrete('results', sorted(out) == ['reco', 'scan'])
        kw = calls[-1]
        env.concrete('scan of the event', len(calls) == i + 1 and kw['event_counter'] == i and kw['data_batch'][0] == 'data %d' % i and kw['plot_file'] == 'plot_{event_counter}_{parameter}')
        env.concrete('around best fit and truth', kw['result_trafo'] == ('best fit', 'data %d' % i) and kw['truth_trafo'] == ('trafo', i + 1) and len(given) == i + 1 and given[-1][1] == 'x_parameters')
        for k in range(4):
            env.equal('truth', env.ref(given[-1][0])[0, k], env.ref(truth)[0, k])
        env.concrete('function of the scan', kw['loss_function'] is mgr.made[-1] and kw['loss_function'].settings['seed'] == 'x_seed')
