"""P16: reconstruction reports the fitted parameters and leaves fixed ones alone."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass, Names
CONTRACTS = []
SM = 'manager.source.SourceManager.'
NAME = 'x_parameters'
K = 4


class Trafo:
    """a data transformer under its own contract (P05): an invertible map per
    parameter; here an arbitrary increasing affine one"""

    def __init__(self, env, k, dtype='float64'):
        self.a = [env.pos('scale') for _ in range(k)]
        self.c = [env.real('shift') for _ in range(k)]
        self.k, self.np, self.env = k, env.np, env
        self.data = {'tensors': {NAME: Obj(dtype=dtype, shape=[-1, k], trafo_log=None)}}
        self.names = []

    def transform(self, data, tensor_name):
        self.names.append(tensor_name)
        if self.env.is_concrete and not self.env.tf.is_tensor(data):    # the dtype is kept
            return (self.np.array(data, dtype=float) * self.np.array(self.a) + self.np.array(self.c)).astype(data.dtype)
        return data * self.np.array(self.a) + self.np.array(self.c)

    def inverse_transform(self, data, tensor_name):
        self.names.append(tensor_name)
        return (data - self.np.array(self.c)) / self.np.array(self.a)

    def fwd(self, x, i):
        return x * self.a[i] + self.c[i]

    def inv(self, y, i):
        return (y - self.c[i]) / self.a[i]


def fit_list(env, k=K):
    fit = [env.flag('fit%d' % i) for i in range(k)]
    env.assume(any(fit))
    return fit


def merged(env, fit, trafo, in_trafo, result, seed, b):
    """the full physical parameter vector of event b"""
    out, j = [], 0
    for i, f in enumerate(fit):
        if f:
            v = result[b, j]
            out.append(trafo.inv(v, i) if in_trafo else v)
            j += 1
        else:
            out.append(seed[b, i])
    return out


@contract(CONTRACTS, ['manager.reconstruction.modules.utils.trafo.get_reco_result_batch'],
          bounded='4 parameters, each fitted or fixed; any batch size and any values')
def result_reassembly(env):
    """reported parameters: fitted ones are the (back-transformed) minimiser
    result, fixed ones equal the seed"""
    m = env.mod('manager.reconstruction.modules.utils.trafo')
    many = env.flag('many')
    fit, in_trafo = [i % 5 != 1 for i in range(13)] if many else fit_list(env), env.flag('minimize_in_trafo_space')
    K = len(fit)
    trafo = Trafo(env, K)
    n = env.int('n', 1)
    seed = env.arr('seed', [n, K])
    res = env.arr('fit_result', [n, sum(fit)])
    s = seed
    if env.is_concrete and env.flag('seed is a tf tensor'):
        s = env.tf.constant(seed)
    out = env.ref(m.get_reco_result_batch(res, s, fit, in_trafo, trafo, parameter_tensor_name=NAME))
    env.concrete('shape', len(out.shape) == 2 and (not env.is_concrete or out.shape == (n, K)))
    b = env.index('b', n)
    for i, w in enumerate(merged(env, fit, trafo, in_trafo, res, seed, b)):
        env.equal('parameter %d' % i, out[b, i], w)
    env.concrete('the parameter tensor is transformed', all(x == NAME for x in trafo.names))


def make_manager(env, trafo, models=(), names=('x_dom_charge', NAME, 'x_seed')):
    base = env.mod('manager.source').SourceManager
    return subclass(base, data_handler=Obj(tensors=Names(names)), data_trafo=trafo, models=list(models), _logger=NullLog(),
                    configuration=Obj(config={'config': {'I3ParticleMapping': {'azimuth': 'azimuth', 'zenith': 'zenith'}}}))


class FakeModel:
    def __init__(self, env, tag):
        self.env, self.tag, self.calls = env, tag, []

    def get_tensors(self, data_batch_dict, is_training, parameter_tensor_name='x_parameters', **kw):
        self.calls.append((dict(data_batch_dict), is_training, parameter_tensor_name))
        return {'tag': self.tag, 'par': data_batch_dict[parameter_tensor_name]}


class FakeLoss:
    """some loss: arbitrary but known function of the parameters and the model"""

    def __init__(self, weights):
        self.w, self.calls = weights, []

    def get_loss(self, data_batch_dict, result_tensors, tensors, model=None, parameter_tensor_name='x_parameters', reduce_to_scalar=True, **kw):
        self.calls.append((result_tensors['tag'], model, kw))
        p = result_tensors['par']
        v = sum(p[0, i] * w for i, w in enumerate(self.w[model.tag]))
        return v if reduce_to_scalar else [v, v * 2., v * 3.]


@contract(CONTRACTS, [SM + 'parameter_loss_function', SM + 'get_parameter_loss_function'],
          bounded='4 parameters, ensembles of 1 to 3 models')
def objective(env):
    """the objective of a fit is the summed loss of all ensemble members at the
    full physical parameters, with fixed ones at their seed"""
    fit, in_trafo, scalar = fit_list(env), env.flag('minimize_in_trafo_space'), env.flag('reduce_to_scalar')
    trafo = Trafo(env, K)
    nm = env.choose('models', [1, 2, 3])
    models = [FakeModel(env, i) for i in range(nm)]
    loss = FakeLoss([[env.real('w') for _ in range(K)] for _ in range(nm)])
    mgr = make_manager(env, trafo, models)
    seed = env.tensor('seed', [1, K], dtype='float64')
    x = env.tensor('x', [1, sum(fit)], dtype='float64')
    dummy = env.tensor('charge', [1, 2], dtype='float64')
    by_name = env.flag('seed given by name')
    batch = (dummy, env.tensor('true', [1, K], dtype='float64'), seed)
    kw = dict(loss_module=loss, fit_paramater_list=fit, minimize_in_trafo_space=in_trafo, parameter_tensor_name=NAME, reduce_to_scalar=scalar, normalize_by_total_charge=False)
    if env.flag('through the built function') and not env.is_concrete:
        f = mgr.get_parameter_loss_function(input_signature=None, seed=None, **kw)
        got = f(x, batch, seed=seed)
    else:
        got = mgr.parameter_loss_function(x, batch, seed='x_seed' if by_name else seed, **kw)
    full = merged(env, fit, trafo, in_trafo, env.ref(x), env.ref(seed), 0)
    want = sum(sum(p * w for p, w in zip(full, loss.w[i])) for i in range(nm))
    if scalar:
        env.equal('summed loss', got, want)
    else:
        for t, s in enumerate((1., 2., 3.)):
            env.equal('summed loss term %d' % t, got[t], want * s)
    env.concrete('each model evaluated once, not in training', [len(m.calls) for m in models] == [1] * nm and not any(m.calls[0][1] for m in models))
    env.concrete('each loss gets its own model', [(c[0], c[1]) for c in loss.calls] == [(i, models[i]) for i in range(nm)])
    env.concrete('options are passed on', all(c[2] == {'normalize_by_total_charge': False} for c in loss.calls))
    env.equal('the data batch keeps its other tensors', models[0].calls[0][0]['x_dom_charge'], dummy)


class Num:
    """result of the loss function: has .numpy()"""

    def __init__(self, v):
        self.v = v

    def numpy(self):
        return self.v


class Minimizer:
    """records the call; returns an arbitrary point"""

    def __init__(self, env, x):
        self.env, self.x = env, x

    def minimize(self, fun=None, x0=None, args=(), **kw):
        self.fun, self.x0, self.args, self.kw = fun, x0, args, kw
        return Obj(x=self.x)


@contract(CONTRACTS, [SM + 'reconstruct_events'], bounded='4 parameters; one event per minimisation, any values', trials=150)
def scipy_fit(env):
    """the minimiser starts at the (transformed) seed of the fitted parameters,
    evaluates loss and gradient at its own point, bounds are the transformed
    physical bounds, and its minimum is returned"""
    import math
    env.finite()
    fit, in_trafo = fit_list(env), env.flag('minimize_in_trafo_space')
    nf, idx = sum(fit), [i for i, f in enumerate(fit) if f]
    trafo = Trafo(env, K)
    mgr = make_manager(env, trafo)
    seed = env.arr('seed', [1, K])
    x = env.arr('minimum', [nf])
    mini = Minimizer(env, x)
    env.patch(env.mod('manager.source'), 'optimize', mini)
    seen = []
    g = env.arr('gradient', [1, nf])
    val = env.arr('loss', [])

    def lg(p, batch, seed=None):
        seen.append((p, batch, seed))
        return Num(val), Num(g)
    kw = {}
    use_bounds = env.flag('bounds')
    if use_bounds:
        bounds = [[env.real('lo'), env.real('hi')] for _ in range(K)]
        none = env.choose('unbounded', ['no', 'None', 'inf', 'integers'] if env.is_concrete else ['no'])
        if none == 'integers':
            bounds = [[-1, i] for i in range(K)]
        elif none != 'no':
            bounds[1] = [None, None] if none == 'None' else [-math.inf, math.inf]
            bounds[2][1] = bounds[1][1]
        kw['bounds'] = [list(b) for b in bounds] if in_trafo else [list(bounds[i]) for i in idx]
    seed_arg = env.choose('seed by', ['value', 'name'])
    given = seed
    if env.is_concrete and env.flag('seed is a tf tensor'):
        given = env.tf.constant(seed)
    batch = ('charge', 'true', given)
    best, obj = mgr.reconstruct_events(batch, 'loss', lg, fit, minimize_in_trafo_space=in_trafo, seed=given if seed_arg == 'value' else 'x_seed',
                                       parameter_tensor_name=NAME, method='M', **kw)
    for j, i in enumerate(idx):
        env.equal('start value of parameter %d' % i, mini.x0[j], trafo.fwd(seed[0, i], i) if in_trafo else seed[0, i])
        env.equal('minimum of parameter %d' % i, best[0, j], x[j])
    env.equal('number of fitted parameters', mini.x0.shape[0], nf)
    env.concrete('method and jac passed on', mini.kw.get('method') == 'M' and mini.kw.get('jac') is True)
    if use_bounds:
        got = mini.kw['bounds']
        env.concrete('bounds of the fitted parameters', len(got) == nf)
        for j, i in enumerate(idx):
            for s in range(2):
                w = bounds[i][s]
                if w is None or (isinstance(w, float) and math.isinf(w)):
                    env.concrete('no bound', got[j][s] is None or (math.isinf(got[j][s]) and (got[j][s] > 0) == (s == 1)))
                else:
                    env.equal('bound %d of parameter %d' % (s, i), got[j][s], trafo.fwd(w, i) if in_trafo else w)
    y = env.arr('trial', [nf])
    f, gr = mini.fun(y, *mini.args)
    env.equal('objective value', f, val)
    env.equal('gradient', gr, g[0])
    env.equal('evaluated at the trial point', seen[0][0], env.np.reshape(y, [1, nf]))
    env.concrete('batch is passed', seen[0][1] is batch)
    env.equal('fixed parameters stay at the seed', seen[0][2], seed)


@contract(CONTRACTS, [SM + 'reconstruct_events', SM + 'tf_reconstruct_events', SM + 'reconstruct_events_spherical_opt', SM + 'scipy_global_reconstruct_events'])
def wrong_parameter_list(env):
    """a fit list of the wrong length is rejected by every interface"""
    trafo = Trafo(env, K)
    mgr = make_manager(env, trafo)
    n = env.choose('n', [1, 3, 5])
    seed = env.arr('seed', [1, K])
    for f in ('reconstruct_events', 'tf_reconstruct_events', 'reconstruct_events_spherical_opt', 'scipy_global_reconstruct_events'):
        env.raises(f, ValueError, lambda: getattr(mgr, f)((), 'loss', None, [True] * n, seed=seed, parameter_tensor_name=NAME))


@contract(CONTRACTS, [SM + 'tf_reconstruct_events'], bounded='4 parameters')
def tfp_fit(env):
    """same for the tensorflow-probability optimisers"""
    fit, in_trafo = fit_list(env), env.flag('minimize_in_trafo_space')
    idx = [i for i, f in enumerate(fit) if f]
    trafo = Trafo(env, K)
    mgr = make_manager(env, trafo)
    seed = env.tensor('seed', [1, K], dtype='float64')
    pos = env.tensor('minimum', [1, len(idx)], dtype='float64')
    seen = {}

    def opt(value_and_gradients_function=None, initial_position=None, **kw):
        seen.update(f=value_and_gradients_function, x0=initial_position, kw=kw)
        return Obj(position=pos)
    env.patch(env.mod('manager.source'), 'tfp', Obj(optimizer=Obj(my_minimize=opt)))
    calls = []
    val, g = env.tensor('loss', [], dtype='float64'), env.tensor('gradient', [1, len(idx)], dtype='float64')

    def lg(x, batch, seed):
        calls.append((x, batch, seed))
        return val, g
    batch = ('charge', 'true', seed)
    best, obj = mgr.tf_reconstruct_events(batch, 'loss', lg, fit, minimize_in_trafo_space=in_trafo, seed=env.choose('seed', ['x_seed', seed]) if not env.is_concrete else 'x_seed',
                                          parameter_tensor_name=NAME, method='my_minimize', x_tolerance=.1)
    env.equal('number of fitted parameters', seen['x0'].shape[1], len(idx))
    for j, i in enumerate(idx):
        env.equal('start value %d' % i, env.ref(seen['x0'])[0, j], trafo.fwd(env.ref(seed)[0, i], i) if in_trafo else env.ref(seed)[0, i])
    env.equal('minimum', best, pos)
    env.concrete('options', seen['kw'] == dict(x_tolerance=.1))
    y = env.tensor('trial', [1, len(idx)], dtype='float64')
    f, gr = seen['f'](y)
    env.equal('objective', f, env.np.reshape(env.ref(val), [1]))
    env.equal('gradient', gr, g)
    env.equal('trial point', calls[0][0], y)
    env.equal('seed', calls[0][2], seed)


@contract(CONTRACTS, [SM + 'scipy_global_reconstruct_events'], bounded='4 parameters; one event per minimisation, any values')
def global_fit(env):
    """the search region is centred on the seed of the fitted parameters, loss
    and gradient (and Hessian) are evaluated at the minimiser's own point, its
    minimum is returned, and no setting is carried over to later fits"""
    env.finite()
    fit = fit_list(env)
    nf, idx = sum(fit), [i for i, f in enumerate(fit) if f]
    trafo = Trafo(env, K)
    mgr = make_manager(env, trafo)
    seed, x = env.arr('seed', [1, K]), env.arr('minimum', [nf])
    g, val, h = env.arr('gradient', [1, nf]), env.arr('loss', []), env.arr('hessian', [nf, nf])
    runs, seen = [], []

    def shgo(func=None, bounds=None, args=(), **kw):
        runs.append(Obj(f=func, bounds=bounds, args=args, kw=kw, inner=dict(kw['minimizer_kwargs']), options=dict(kw['options'])))
        return Obj(x=x)
    env.patch(env.mod('manager.source'), 'optimize', Obj(shgo=shgo))
    env.patch(env.mod('manager.source'), 'print', lambda *a: None)

    def lg(p, batch, seed=None):
        seen.append((p, batch, seed))
        return Num(val), Num(g)

    def hess(p, batch, seed=None):
        seen.append((p, batch, seed))
        return Num(h)
    batch, by_name = ('charge', 'true', seed), env.flag('seed by name')
    inner, opts = {'method': 'M'}, {'maxtime': 3}
    given, second = env.flag('given settings'), env.flag('second fit with a Hessian')
    kw = dict(minimizer_kwargs=inner, options=opts) if given else {}
    common = dict(seed='x_seed' if by_name else seed, parameter_tensor_name=NAME)
    if second:
        # an earlier fit with other settings
        mgr.scipy_global_reconstruct_events(batch, 'loss', lg, fit, hessian_function=hess, **common, **kw)
        r = runs[0]
        for k in (r.inner, r.options):
            env.concrete('Hessian is used', callable(k.get('hess')))
            env.equal('Hessian', k['hess'](env.arr('trial2', [nf]), *r.args), h)
        env.equal('Hessian at the seed', seen[0][2], seed)
        seen.clear()
    best, obj = mgr.scipy_global_reconstruct_events(batch, 'loss', lg, fit, **common, **kw)
    r = runs[-1]
    env.concrete('settings of this fit', r.inner == dict(inner if given else {'method': 'BFGS'}, jac=True) and r.options == dict(opts if given else {'maxtime': 10}, jac=True))
    env.concrete('given settings are left as they are', inner == {'method': 'M'} and opts == {'maxtime': 3})
    env.equal('number of searched parameters', env.np.asarray(r.bounds).shape[0], nf)
    for j, i in enumerate(idx):
        c = trafo.fwd(seed[0, i], i)
        env.equal('lower bound of parameter %d' % i, r.bounds[j][0], c - 1)
        env.equal('upper bound of parameter %d' % i, r.bounds[j][1], c + 1)
        env.equal('minimum of parameter %d' % i, best[0, j], x[j])
    y = env.arr('trial', [nf])
    f, gr = r.f(y, *r.args)
    env.equal('objective value', f, val)
    env.equal('gradient', gr, g[0])
    env.equal('evaluated at the trial point', seen[0][0], env.np.reshape(y, [1, nf]))
    env.concrete('batch is passed', seen[0][1] is batch)
    env.equal('fixed parameters stay at the seed', seen[0][2], seed)


@contract(CONTRACTS, [SM + 'reconstruct_events_spherical_opt'], bounded='7 fitted parameters; one event per minimisation, any values')
def spherical_fit(env):
    """the search starts at the seed of the fitted parameters and at valid
    directions around it, the loss is evaluated at the minimiser's own points,
    and its minimum is returned"""
    import math
    env.finite()
    np = env.np
    fixed, in_trafo = env.choose('fixed parameter', [None, 0, 7]), env.flag('minimize_in_trafo_space')
    k = 7 if fixed is None else 8
    fit = [i != fixed for i in range(k)]
    idx = [i for i in range(k) if fit[i]]
    az, zen = env.choose('azimuth and zenith', [(4, 3), (3, 4)])
    trafo = Trafo(env, k)
    model = Obj(get_index={'my_azimuth': az, 'my_zenith': zen}.__getitem__)
    mgr = make_manager(env, trafo, [model])
    mgr.configuration.config['config']['I3ParticleMapping'] = {'azimuth': 'my_azimuth', 'zenith': 'my_zenith'}
    seed, x = env.arr('seed', [1, k]), env.arr('minimum', [7])
    if env.is_concrete:
        seed[0, az], seed[0, zen] = abs(seed[0, az]) % 6.28, abs(seed[0, zen]) % 3.14
    else:
        env.assume((seed[0, az] >= 0) & (seed[0, az] <= 2 * math.pi) & (seed[0, zen] >= 0) & (seed[0, zen] <= math.pi))
    n_batch = env.choose('points at once', [1, 2])
    runs, seen = [], []

    def spherical_opt(func=None, initial_points=None, **kw):
        runs.append(Obj(f=func, x0=initial_points, kw=kw))
        return {'x': x, 'success': True, 'n_calls': 1, 'nit': 1}
    m = env.mod('manager.source')
    env.patch(m, 'spherical_opt', spherical_opt)
    env.patch(m, 'print', lambda *a: None)
    drawn = []

    def normal(loc, scale=None, size=None):
        drawn.append(loc + np.array(scale) * env.arr('normal', loc.shape))
        return drawn[-1] + 0.
    env.patch(np.random, 'normal', normal)
    val, event, dom = env.arr('loss', []), env.arr('event loss', [2]), env.arr('module loss', [2, 3, 2])

    def loss(p, batch, seed=None):
        seen.append((p, batch, seed))
        return val if n_batch == 1 else (Num(val), Num(event), Num(dom))
    batch, by_name = ('charge', 'true', seed), env.flag('seed by name')
    best, result = mgr.reconstruct_events_spherical_opt(batch, 'loss', loss, fit, minimize_in_trafo_space=in_trafo, seed='x_seed' if by_name else seed, parameter_tensor_name=NAME,
                                                        batch_size=n_batch, max_calls=12)
    r = runs[0]
    env.concrete('options are passed on', r.kw.get('max_calls') == 12 and r.kw.get('batch_size') == n_batch)
    env.equal('minimum', best, np.reshape(x, [1, 7]))
    n = 20 * n_batch
    env.concrete('initial points', tuple(r.x0.shape) == (n, 7))
    for j, i in enumerate(idx):
        env.equal('seed of parameter %d' % i, r.x0[0, j], trafo.fwd(seed[0, i], i) if in_trafo else seed[0, i])
    pairs = [list(p) for p in r.kw['spherical_indices']]
    env.concrete('physical directions are searched on the sphere', pairs == ([[az, zen]] if not in_trafo and fixed is None else []))
    for a, z in pairs:
        i = env.index('i', n)
        e = 1e-6 if env.is_concrete else 0
        env.prove('valid zenith', (r.x0[i, z] >= 0) & (r.x0[i, z] <= math.pi + e))
        env.prove('valid azimuth', (r.x0[i, a] >= 0) & (r.x0[i, a] <= 2 * math.pi + e))
        i = env.index('i', n - 1)
        d = drawn[0]
        full = np.mod(d[i, z], 2 * math.pi)
        back = full > math.pi
        env.equal('zenith of the drawn direction', r.x0[i + 1, z], np.where(back, 2 * math.pi - full, full))
        az_want = np.mod(np.where(back, d[i, a] + math.pi, d[i, a]), 2 * math.pi)
        pole = (full <= e) | ((full >= math.pi - e) & (full <= math.pi + e)) | (full >= 2 * math.pi - e)
        gap = abs(r.x0[i + 1, a] - az_want)
        env.prove('azimuth of the drawn direction', pole | (gap <= 1e-6) | (abs(gap - 2 * math.pi) <= 1e-6) if env.is_concrete else pole | (r.x0[i + 1, a] == az_want))
    y = env.arr('trial', [7] if n_batch == 1 else [2, 7])
    got = r.f(y)
    if n_batch == 1:
        env.equal('objective value', got, val)
    else:
        for b in range(2):
            env.equal('objective value', got[b], val / 2 + event[b] + sum(dom[b, i, j] for i in range(3) for j in range(2)))
    env.equal('evaluated at the trial points', seen[0][0], np.reshape(y, [n_batch, 7]))
    env.concrete('batch is passed', seen[0][1] is batch)
    env.equal('fixed parameters stay at the seed', seen[0][2], seed)


class Cache:
    def __init__(self):
        self.added = []

    def get(self, name, settings):
        return None

    def add(self, f, settings):
        self.added.append((f, settings))


@contract(CONTRACTS, ['manager.reconstruction.modules.reconstruction.Reconstruction.execute', 'manager.reconstruction.modules.reconstruction.Reconstruction.__init__'],
          bounded='3 parameters, each fitted or fixed; any batch size')
def reconstruction_module(env):
    """seed and reconstructed losses are evaluated at the seed and at the
    reported parameters, whose fixed entries equal the seed"""
    R = env.mod('manager.reconstruction.modules.reconstruction')
    k = 3
    fit, in_trafo, prev = fit_list(env, k), env.flag('minimize_in_trafo_space'), env.flag('seed_from_previous_module')
    trafo = Trafo(env, k)
    n = env.int('n', 1)
    seed = env.arr('seed', [n, k])
    res = env.arr('result', [n, sum(fit)])
    iface = env.choose('interface', ['scipy', 'shog', 'SCIPY', 'spherical_opt', 'tfp'])
    env.patch(R.tf, 'function', lambda f=None, **kw: f if f is not None else (lambda g: g))
    calls, loss_at = [], []

    def method(which):
        def f(data_batch, loss_module, loss_and_gradients_function=None, fit_paramater_list=None, minimize_in_trafo_space=None, seed=None, parameter_tensor_name=None, loss_function=None, **kw):
            calls.append((which, data_batch, loss_module, loss_and_gradients_function or loss_function, fit_paramater_list, minimize_in_trafo_space, seed, parameter_tensor_name, kw))
            return res, 'object'
        return f

    def loss_function(**settings):
        def f(p, batch):
            loss_at.append((p, batch, settings))
            return Num(len(loss_at) - 1)
        functions.append((f, settings))
        return f
    settings_seen, functions = {}, []

    def lg(**settings):
        settings_seen.update(settings)
        return 'loss_and_gradients'
    mgr = Obj(data_handler=Obj(tensors=Names(['x_dom_charge', NAME, 'x_seed']), get_data_set_signature=lambda: 'sig'), data_trafo=trafo,
              get_parameter_loss_function=loss_function, get_loss_and_gradients_function=lg,
              reconstruct_events=method('scipy'), scipy_global_reconstruct_events=method('shog'), reconstruct_events_spherical_opt=method('spherical_opt'),
              tf_reconstruct_events=method('tfp'))
    cache = Cache()
    mod = R.Reconstruction(mgr, 'loss_module', cache, fit, 'reco_1' if prev else 'x_seed', seed_from_previous_module=prev,
                           minimize_in_trafo_space=in_trafo, parameter_tensor_name=NAME, reco_optimizer_interface=iface,
                           scipy_optimizer_settings={'method': 'Z'}, tf_optimizer_settings={'method': 'Y'})
    other = env.arr('other', [n, k])
    batch = ('charge', 'true', other if prev else seed)
    results = {'reco_1': {'result': seed}} if prev else {}
    out = mod.execute(batch, results)
    env.concrete('one fit by the chosen interface', len(calls) == 1 and calls[0][0] == iface.lower())
    c = calls[0]
    env.concrete('fit configuration', c[1] is batch and c[2] == 'loss_module' and list(c[4]) == fit and c[5] == in_trafo and c[7] == NAME)
    opts = {'scipy': {'method': 'Z'}, 'shog': {'minimizer_kwargs': {'method': 'Z'}}, 'tfp': {'method': 'Y'}, 'spherical_opt': {}}
    env.concrete('settings of the optimiser', c[8] == opts[iface.lower()])
    if iface == 'spherical_opt':
        st = [s for f, s in functions if f is c[3]]
        env.concrete('minimises the loss', len(st) == 1 and list(st[0]['fit_paramater_list']) == fit and st[0]['minimize_in_trafo_space'] == in_trafo and st[0]['parameter_tensor_name'] == NAME
                     and st[0]['loss_module'] == 'loss_module')
    else:
        env.concrete('minimises loss and gradients', c[3] == 'loss_and_gradients')
    env.equal('fit seed', c[6], seed)
    env.concrete('gradients function configured alike', list(settings_seen['fit_paramater_list']) == fit and settings_seen['minimize_in_trafo_space'] == in_trafo and settings_seen['parameter_tensor_name'] == NAME)
    b = env.index('b', n)
    for i, w in enumerate(merged(env, fit, trafo, in_trafo, res, seed, b)):
        env.equal('reported parameter %d' % i, out['result'][b, i], w)
    env.equal('raw result', out['result_trafo'], res)
    env.concrete('loss evaluated twice', len(loss_at) == 2)
    env.equal('seed loss is evaluated at the seed', loss_at[out['loss_seed']][0], seed)
    env.equal('reco loss is evaluated at the result', loss_at[out['loss_reco']][0], out['result'])
    st = loss_at[0][2]
    env.concrete('losses are in physical parameters', st['minimize_in_trafo_space'] is False and all(st['fit_paramater_list']) and len(st['fit_paramater_list']) == k)
    env.concrete('complete result', {'result', 'result_trafo', 'result_object', 'loss_seed', 'loss_reco', 'seed_tensor_name', 'seed_from_previous_module'} <= set(out))


@contract(CONTRACTS, ['manager.reconstruction.modules.reconstruction.Reconstruction.__init__'])
def unknown_interface(env):
    """an unknown optimiser interface is rejected"""
    R = env.mod('manager.reconstruction.modules.reconstruction')
    trafo = Trafo(env, 2)
    mgr = Obj(data_handler=Obj(tensors=Names([NAME]), get_data_set_signature=lambda: 'sig'), data_trafo=trafo,
              get_parameter_loss_function=lambda **k: 'a', get_loss_and_gradients_function=lambda **k: 'b')
    env.raises('rejected', ValueError, lambda: R.Reconstruction(mgr, 'l', Cache(), [True, True], NAME, reco_optimizer_interface='simplex'))


@contract(CONTRACTS, ['manager.reconstruction.modules.reconstruction.SelectBestReconstruction.execute'],
          bounded='1 to 4 candidate reconstructions in any order, any losses')
def best_of_several(env):
    """the candidate with the smallest loss is selected, its results are
    returned unchanged and the candidates' own records stay intact"""
    R = env.mod('manager.reconstruction.modules.reconstruction')
    k = env.choose('candidates', [1, 2, 3, 4])
    names = ['r%d' % i for i in range(k)]
    losses = [env.between("loss", -1e30, 1e30) for _ in names]
    results = {n: dict(loss_reco=l, result='result of ' + n, runtime='time of ' + n, seed_tensor_name='seed of ' + n) for n, l in zip(names, losses)}
    results['another'] = dict(loss_reco=-1e9, result='x', runtime=0)
    mod = R.SelectBestReconstruction('m', 'l', 'c', names)
    before = {n: dict(r) for n, r in results.items()}
    out = mod.execute('batch', results)
    for n, l in zip(names, losses):
        env.leq('selected loss is not larger than that of %s' % n, out['loss_reco'], l)
    which = [n for n in names if out['result'] == 'result of ' + n]
    env.concrete('a candidate was selected', len(which) == 1)
    env.concrete('its record is returned', out['seed_tensor_name'] == 'seed of ' + which[0] and out['reco_runtime'] == 'time of ' + which[0])
    env.equal('with its loss', out['loss_reco'], losses[names.index(which[0])])
    env.concrete('runtime key is left to the tray', 'runtime' not in out)
    env.concrete('candidates unchanged', all(set(before[n]) == set(results[n]) for n in before))


@contract(CONTRACTS, ['manager.reconstruction.modules.reconstruction.Reconstruction.execute'], bounded='13 parameters, up to 2 events')
def random_seeds(env):
    """a random seed replaces the direction and the nuisance parameters within
    their ranges, moves the vertex, keeps the energy, and leaves the seed and
    the data as they were; the fit then starts there"""
    R = env.mod('manager.reconstruction.modules.reconstruction')
    L = env.np
    n = env.choose('events', [1, 2])
    k = 13
    trafo = Trafo(env, k)
    seed = env.tensor('seed', [n, k], np_like=True, dtype='float64')
    true = env.tensor('true', [n, k], np_like=True, dtype='float64')
    want = env.ref(seed) * 1.
    res = env.arr('result', [n, k])
    env.patch(R.tf, 'function', lambda f=None, **kw: f if f is not None else (lambda g: g))
    env.patch(R, 'print', lambda *a, **kw: None)
    draws = []

    def normal(loc=0., scale=1., size=None):
        draws.append((loc, scale))
        return loc + scale * env.real('n')

    def uniform(low=0., high=1., size=None):
        return low + (high - low) * env.between('u', 0., 1.)
    if env.is_concrete:
        env.patch(R.np.random, 'normal', normal)
        env.patch(R.np.random, 'uniform', uniform)
    else:
        env.patch(R.np, 'random', Obj(normal=normal, uniform=uniform))
    calls, loss_at = [], []

    def fit(data_batch, loss_module, **kw):
        calls.append(env.ref(kw['seed']) * 1.)
        return res, 'object'

    def loss(p, batch):
        loss_at.append(env.ref(p) * 1.)
        return Num(len(loss_at))
    mgr = Obj(data_handler=Obj(tensors=Names(['x_dom_charge', NAME, 'x_seed']), get_data_set_signature=lambda: 'sig'), data_trafo=trafo,
              get_parameter_loss_function=lambda **kw: loss, get_loss_and_gradients_function=lambda **kw: 'lg', reconstruct_events=fit)
    mod = R.Reconstruction(mgr, 'loss_module', Cache(), [True] * k, 'x_seed', minimize_in_trafo_space=False, parameter_tensor_name=NAME, randomize_seed=True)
    mod.execute(('charge', true, seed), {})
    x = calls[0]
    b = env.index('b', n)
    lo = {3: 0., 4: 0., 7: .91, 8: .01, 9: .91, 10: -.99, 11: -.19, 12: .91}
    hi = {3: L.pi, 4: 2 * L.pi, 7: 1.09, 8: 1.99, 9: 1.09, 10: .99, 11: .19, 12: 1.09}
    for i in range(k):
        env.equal('the seed is unchanged', env.ref(seed)[b, i], want[b, i])
        env.equal('loss of the seed', loss_at[0][b, i], x[b, i])
        if i in lo:
            env.leq('in range', lo[i] - 1e-9, x[b, i])
            env.leq('in range', x[b, i], hi[i] + 1e-9)
    env.equal('energy', x[b, 5], want[b, 5])
    env.concrete('vertex and time vary about the seed', len(draws) == 2)


def scan_loss(env, trafo, settings):
    """what get_parameter_loss_function promises for its settings: the loss of
    the parameters put together from the fitted ones (in the space of the fit)
    and the ones of the seed"""
    fit, in_trafo = list(settings['fit_paramater_list']), settings['minimize_in_trafo_space']
    shape = settings['input_signature'][0].shape
    width = shape[-1]

    def loss(parameters_trafo, data_batch):
        p = parameters_trafo
        if p.shape[-1] != sum(fit) or int(width) != sum(fit):
            raise ValueError('parameters of shape {}'.format(p.shape))
        out, j = [], 0
        for i, f in enumerate(fit):
            if f:
                out.append(trafo.inv(p[0, j], i) if in_trafo else p[0, j])
                j += 1
            else:
                out.append(data_batch[SCAN.index(settings['seed'])][0, i])
        return Obj(numpy=lambda: Obj(at=out, data=data_batch))
    return loss


SCAN = ['x_dom_charge', NAME, 'x_seed']
VIS = 'manager.reconstruction.modules.visualization.Visualize1DLikelihoodScan.'


class Axis:
    def __init__(self):
        self.curves, self.lines, self.levels = {}, {}, []

    def plot(self, x, y, label=None, **k):
        self.curves[label] = (x, y)

    def axvline(self, x, label=None, **k):
        self.lines[label] = x

    def axhline(self, y, **k):
        self.levels.append(y)

    legend = set_ylabel = set_xlabel = set_ylim = grid = set_title = set_yscale = lambda self, *a, **k: None


def drawing(env):
    """matplotlib.pyplot which remembers what is drawn"""
    import sys
    import types
    files = []

    def subplots(*a, **k):
        axes = [Axis(), Axis()]
        return Obj(savefig=lambda f, *a, **k: files.append((f, axes)), tight_layout=lambda *a, **k: None), axes
    plt = types.ModuleType('matplotlib.pyplot')
    plt.subplots, plt.close = subplots, lambda *a, **k: None
    package = types.ModuleType('matplotlib')
    package.pyplot = plt
    imported = sys.modules if env.is_concrete else env.w.models
    env.patch(imported, 'matplotlib', package)
    env.patch(imported, 'matplotlib.pyplot', plt)
    return files


@contract(CONTRACTS, [VIS + '__init__', VIS + 'execute', VIS + 'make_1d_llh_scans'], bounded='2 or 3 parameters, each fitted or fixed, 2 events, 2 points of each scan (any points)')
def scan_curves(env):
    """a likelihood scan of an event shows, for every parameter, the loss at
    the best fit (and at the truth) with nothing but this parameter changed,
    at the physical values of the parameter, whichever parameters were fitted
    in whichever space"""
    m = env.mod('manager.reconstruction.modules.visualization')
    k = env.choose('parameters', [2, 3])
    fit, in_trafo = fit_list(env, k), env.flag('minimize_in_trafo_space')
    trafo = Trafo(env, k)
    if not env.is_concrete:
        from contracts import objnp
        shown = objnp.Numpy()
        env.patch(m, 'np', shown)
        arr = lambda rows: objnp.obj(rows)
    else:
        shown = m.np
        arr = lambda rows: env.np.array(rows)
    each = lambda f: lambda data, tensor_name: trafo.names.append(tensor_name) or arr([[f(data[0, i], i) for i in range(k)]])
    maps = Obj(data=trafo.data, transform=each(trafo.fwd), inverse_transform=each(trafo.inv))
    grids = []

    def grid(lo, hi, n=50, *a, **kw):
        grids.append((lo, hi, [env.real('point') for _ in range(2)]))
        return env.np.array(grids[-1][-1]) if env.is_concrete else objnp.arr(grids[-1][-1])
    env.patch(shown, 'linspace', grid)
    env.patch(m, 'print', lambda *a, **kw: None)
    files = drawing(env)
    names = ['a', 'b', 'c'][:k]
    settings = []

    def make(**kw):
        settings.append(kw)
        return scan_loss(env, trafo, kw)
    mgr = Obj(data_handler=Obj(tensors=Names(SCAN), get_data_set_signature=lambda: ()), data_trafo=maps, models=[Obj(parameter_names=names)],
              get_parameter_loss_function=make)
    scan = m.Visualize1DLikelihoodScan(mgr, 'loss', Obj(get=lambda *a: None, add=lambda *a: None), list(fit), 'x_seed', 'reco', 'scan_{parameter}_{event_counter}',
                                       minimize_in_trafo_space=in_trafo, parameter_tensor_name=NAME)
    env.concrete('the loss of the fit', [s['loss_module'] for s in settings] == ['loss'])
    row = lambda n: arr([[env.real(n) for _ in range(k)]])
    for event in range(2):
        del files[:], grids[:]
        truth, seed, best = row('truth'), row('seed'), row('best fit')
        batch = ('charge', truth, seed)
        scan.execute(batch, {'reco': {'result_trafo': arr([[trafo.fwd(best[0, i], i) for i in range(k)]])}})
        env.concrete('a file per parameter', [f for f, _ in files] == ['scan_%s_%d' % (n, event) for n in names])
        for p, ((_, axes), (lo, hi, points)) in enumerate(zip(files, grids)):
            env.leq('the truth is in the scan', lo, trafo.fwd(truth[0, p], p))
            env.leq('the truth is in the scan', trafo.fwd(truth[0, p], p), hi)
            for ax, label, at in [(axes[0], 'LLh (Truth)', truth), (axes[1], 'LLh (Reco)', best)]:
                values, losses = ax.curves[label]
                env.concrete('one loss per value', len(values) == len(losses) == 2 and len(ax.levels) == 1)
                env.equal('line at the truth', ax.lines['Truth'], truth[0, p])
                env.equal('line at the best fit', ax.lines['Reco'], best[0, p])
                for i in range(k):
                    env.equal('level of the loss', ax.levels[0].at[i], at[0, i])
                for x, value, loss in zip(points, values, losses):
                    env.equal('value of the parameter', value, trafo.inv(x, p))
                    env.concrete('the event', loss.data is batch)
                    for i in range(k):
                        env.equal('parameters of the loss', loss.at[i], trafo.inv(x, p) if i == p else at[0, i])
    env.concrete('the parameter tensor is transformed', all(x == NAME for x in trafo.names))


@contract(CONTRACTS, [VIS + 'make_1d_llh_scans', 'utils.basis_functions.log_gauss'], bounded='2 parameters, 2 points of each scan (any points), one covariance matrix')
def scan_parabolas(env):
    """a covariance matrix is drawn as the parabola of its variance through
    the loss at the truth (at the best fit), with its minimum there"""
    m = env.mod('manager.reconstruction.modules.visualization')
    k = 2
    trafo = Trafo(env, k)
    if not env.is_concrete:
        from contracts import objnp
        from pyvc import sym
        sym.ctx().world_np = env.np
        sym.ctx().list_operand = objnp.obj      # truth and best fit hold numpy's scalars
        shown = objnp.Numpy()
        env.patch(m, 'np', shown)
        env.patch(env.mod('utils.basis_functions'), 'np', shown)
        arr = lambda rows: objnp.obj(rows)
    else:
        shown, arr = m.np, lambda rows: env.np.array(rows)
    each = lambda f: lambda data, tensor_name: arr([[f(data[0, i], i) for i in range(k)]])
    env.patch(shown, 'linspace', lambda lo, hi, n=50, *a, **kw: arr([env.real('point') for _ in range(2)]))
    env.patch(m, 'print', lambda *a, **kw: None)
    files = drawing(env)
    x = Obj(manager=Obj(data_trafo=Obj(data=trafo.data, transform=each(trafo.fwd), inverse_transform=each(trafo.inv)), models=[Obj(parameter_names=['a', 'b'])]))
    row = lambda n: arr([[env.real(n) for _ in range(k)]])
    best, truth = row('best fit'), row('truth')
    var = [env.between('variance', .5, 2.) for _ in range(k)]
    off = env.between('covariance', -.1, .1)
    losses = []

    def loss(parameters_trafo, data_batch):
        losses.append(env.real('loss'))
        return Obj(numpy=lambda: losses[-1])
    m.Visualize1DLikelihoodScan.make_1d_llh_scans(x, 'batch', best, truth, loss, covariance_list=[arr([[var[0], off], [off, var[1]]])], covariance_names=['cov'])
    env.concrete('a file per parameter', [f for f, _ in files] == ['llh_scan_a_0', 'llh_scan_b_0'])
    for p, (_, axes) in enumerate(files):
        for ax, at in [(axes[0], truth), (axes[1], best)]:
            values, curve = ax.curves['cov']
            for v, c in zip(values, curve):
                env.equal('parabola', c, (v - trafo.inv(at[0, p], p))**2 / (2 * var[p]) + ax.levels[0])
