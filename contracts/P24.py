"""P24: events simulated from the model."""
from pyvc.con import contract
from contracts.common import Obj, subclass
CONTRACTS = []
S = 'ic3.simulation.EventGeneratorSimulation.'
TYPES = ['NuE', 'NuMu', 'NuTau', 'NuEBar', 'NuMuBar', 'NuTauBar', 'Hadrons', 'Pi0', 'Gamma', 'PairProd', 'Brems', 'DeltaE', 'EMinus', 'EPlus', 'MuMinus', 'MuPlus', 'TauMinus', 'PiPlus']
DARK = TYPES[:6]
EM = TYPES[7:14]
DEFAULTS = {'Absorption': 1., 'Scattering': 0.9}


class Closed(Obj):
    """an object whose class is known: other names it has are outside of the
    contract, any further name does not exist"""
    KNOWN = ()

    def __getattr__(self, k):
        if k not in self.KNOWN:
            raise AttributeError(k)
        return Obj.__getattr__(self, k)


class Particle(Closed):
    KNOWN = ('speed', 'shape', 'id', 'major_id', 'minor_id', 'is_neutrino', 'is_cascade', 'is_track', 'location_type', 'type_string', 'pdg_encoding', 'fit_status', 'total_energy', 'kinetic_energy', 'mass', 'shift_along_track',
             'shift_time_track', 'start_pos', 'start_time', 'stop_pos', 'stop_time', 'is_primary', 'is_starting', 'is_stopping', 'has_position', 'has_direction', 'has_energy', 'shape_string')


class Position(Closed):
    KNOWN = ('r', 'rho', 'theta', 'phi', 'mag2', 'cross', 'calc_distance', 'rotate_x', 'rotate_y', 'rotate_z')


class Direction(Closed):
    KNOWN = ('x', 'y', 'z', 'theta', 'phi', 'cross', 'calc_theta', 'calc_phi', 'rotate_x', 'rotate_y', 'rotate_z')


class Pulse:
    pass


def module(env):
    """the module under contract, the data containers of the frame being plain
    ones"""
    m = env.mod('ic3.simulation')
    env.patch(m, 'dataclasses', Obj(I3Particle=Obj(**{n: 'type ' + n for n in TYPES}), I3RecoPulseSeriesMap=dict, I3RecoPulseSeries=list, I3RecoPulse=Pulse))
    env.patch(m, 'icetray', Obj(OMKey=lambda s, o: (s, o)))
    env.patch(m, 'print', lambda *a, **k: None)
    return m


class Model(Obj):
    def __init__(self, names):
        Obj.__init__(self, parameter_names=names, num_parameters=len(names), num_variables=(1, 2))

    def get_index(self, n):
        return self.parameter_names.index(n)


NAMES = [['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time', 'Absorption', 'Scattering'], ['time', 'Scattering', 'energy', 'azimuth', 'zenith', 'Absorption', 'z', 'y', 'x'], ['Scattering', 'energy', 'time', 'Absorption']]


def configured(env, m, names, dtype='float64', **params):
    """a module configured with the given parameters"""
    values = dict(model_name='name', default_values=dict(DEFAULTS), model_base_dir=None, output_key='Out', mc_tree_name='Tree', max_simulation_distance=2250, min_simulation_energy=100,
                  num_threads=3, random_service=Obj())
    values.update(params)
    built = []
    model = Model(names)
    f = Obj()
    mgr = Obj(models=[model], data_trafo=Obj(data={'tensors': {'x_parameters': Obj(dtype=dtype)}}), get_model_tensors_function=lambda *a: f)
    env.patch(m, 'ManagerConfigurator', lambda **kw: [built.append(kw), Obj(manager=mgr)][1])
    pushed = []
    x = subclass(m.EventGeneratorSimulation, GetParameter=lambda self, k: values[k], PushFrame=lambda self, fr: pushed.append(fr))
    x.Configure()
    return x, mgr, model, built, pushed, f


@contract(CONTRACTS, [S + 'Configure'])
def configuration(env):
    """the stated model is loaded; the parameters to be set are those without a
    default, and each has to be one of a particle"""
    m = module(env)
    names = env.choose('parameters', NAMES + [NAMES[0] + ['Unknown']])
    base = env.choose('directory', [None, '/base'])
    if names[-1] == 'Unknown':
        env.raises('unknown parameter', KeyError, lambda: configured(env, m, names))
        return
    seed = env.choose('random service', [7, Obj()])
    if isinstance(seed, int):
        env.patch(m.np.random, 'RandomState', lambda s: ('random', s))
    x, mgr, model, built, _, f = configured(env, m, names, model_base_dir=base, random_service=seed)
    env.concrete('model', len(built) == 1 and built[0]['manager_dirs'] == [('/base/' if base else '') + 'name'] and built[0]['num_threads'] == 3 and x.model is model and x.manager is mgr)
    env.concrete('function', x.get_model_tensors is f)
    env.concrete('random numbers', x.random_service == (('random', 7) if isinstance(seed, int) else seed))
    env.concrete('parameters to set', sorted(x.param_names) == sorted(n for n in names if n not in DEFAULTS))
    other = Obj(models=[model, model])
    env.patch(m, 'ManagerConfigurator', lambda **kw: Obj(manager=other))
    values = dict(model_name='name', default_values={}, model_base_dir=None, output_key='Out', mc_tree_name='Tree', max_simulation_distance=1, min_simulation_energy=1, num_threads=0, random_service=seed)
    y = subclass(m.EventGeneratorSimulation, GetParameter=lambda self, k: values[k])
    env.raises('no ensembles', NotImplementedError, y.Configure)


def particle(env, kind, **kw):
    v = lambda n: env.real(n)
    return Particle(type='type ' + kind, pos=Position(x=v('x'), y=v('y'), z=v('z'), magnitude=env.real('distance')), dir=Direction(zenith=v('zenith'), azimuth=v('azimuth')), energy=env.real('energy'), time=v('time'),
                    length=env.real('length'), **kw)


@contract(CONTRACTS, [S + 'convert_cascades_to_tensor', S + 'Configure'], bounded='up to 3 cascades')
def hypotheses(env):
    """every cascade becomes one hypothesis: its own properties at the index of
    the parameter, default values (or those of the frame) for the others"""
    m = module(env)
    names = env.choose('parameters', NAMES)
    key = env.flag('default from the frame')
    d = dict(DEFAULTS, Absorption='AbsorptionKey') if key else dict(DEFAULTS)
    x, *_ = configured(env, m, names, default_values=d)
    for n in [env.choose('cascades', [1, 2, 3])] + ([1] if env.flag('next event') else []):
        v = env.real('value in the frame')
        ps = [particle(env, 'EMinus') for _ in range(n)]
        t = x.convert_cascades_to_tensor(ps, {'AbsorptionKey': Obj(value=v)})
        t = env.ref(t)
        env.concrete('shape', list(t.shape) == [n, len(names)])
        want = {'Absorption': v if key else 1., 'Scattering': 0.9}
        for i, p in enumerate(ps):
            own = dict(want, x=p.pos.x, y=p.pos.y, z=p.pos.z, zenith=p.dir.zenith, azimuth=p.dir.azimuth, energy=p.energy, time=p.time)
            for j, name in enumerate(names):
                env.equal(name, t[i, j], own[name])


class Tree:
    def __init__(self, primaries, daughters):
        self.p, self.d = primaries, daughters

    def get_primaries(self):
        return list(self.p)

    def get_daughters(self, p):
        return list(self.d.get(id(p), []))


# (kind, daughters)
TREES = [
    [('EMinus', [])], [('NuE', [])], [('NuMuBar', [('EPlus', []), ('Hadrons', [('Pi0', []), ('Gamma', [])])])],
    [('MuMinus', [])], [('MuPlus', [('Brems', [])])], [('NuTau', [('NuMu', []), ('DeltaE', [('Brems', [])])]), ('PairProd', [])],
    [('Hadrons', [])], [('Hadrons', [('PiPlus', []), ('EMinus', [])])], [],
]


@contract(CONTRACTS, [S + 'get_light_sources', S + '_get_light_sources', S + 'Configure'], bounded='event trees of up to 5 particles')
def light_sources(env):
    """exactly the cascades that are energetic and near enough, in the order of
    the event tree; particles that can not be simulated are refused"""
    m = module(env)
    shape = TREES[env.choose('tree', list(range(len(TREES))))]
    e_min, d_max = env.real('min energy'), env.real('max distance')
    x, *_ = configured(env, m, NAMES[0], min_simulation_energy=e_min, max_simulation_distance=d_max)
    daughters = {}

    def build(node):
        p = particle(env, node[0])
        kids = [build(k) for k in node[1]]
        daughters[id(p)] = kids
        everything.append(p)
        return p
    everything = []
    roots = [build(n) for n in shape]
    tree = Tree(roots, daughters)

    def collect(p):
        if p.energy < e_min or p.pos.magnitude - p.length > d_max:
            return []
        kind = p.type[5:]
        if kind in EM:
            return [p]
        kids = daughters[id(p)]
        if not kids and kind not in DARK:
            raise NotImplementedError()
        if kids and kind not in DARK + ['Hadrons']:
            raise ValueError()
        return [q for k in kids for q in collect(k)]
    try:
        want = [q for r in roots for q in collect(r)]
    except (NotImplementedError, ValueError) as e:
        env.raises('can not be simulated', type(e), lambda: x.get_light_sources(tree))
        return
    cascades, tracks = x.get_light_sources(tree)
    env.concrete('cascades', len(cascades) == len(want) and all(a is b for a, b in zip(cascades, want)))
    env.concrete('no tracks', len(tracks) == 0)


class Graph:
    def __init__(self, v):
        self.v = v

    def numpy(self):
        return self.v


class Rng:
    """random numbers: any values of the requested shape"""

    def __init__(self, env):
        self.env, self.calls = env, []

    def uniform(self, low=0., high=1., size=None):
        shape = list(size) if isinstance(size, (tuple, list)) else [size]
        u = self.env.tensor('u%d' % len(self.calls), shape, np_like=True, lo=low, hi=high, strict=True, dtype='float64')
        self.calls.append((low, high, u))
        return u * 1.


@contract(CONTRACTS, [S + 'sample_pulses'], bounded='up to 2 cascades, 2 modules at selected positions (runs: up to 20 modules anywhere) with up to 3 photo-electrons of each cascade, up to 3 mixture components')
def pulses(env):
    """the number of photo-electrons of a module is drawn for each cascade from
    the prediction; each becomes a pulse from the predicted mixture of that
    cascade (component by the cumulative weights, time by its quantile function
    and the time of the cascade), charges adding up; pulses are in time order"""
    m = module(env)
    L = env.np
    names = NAMES[2]
    x = subclass(m.EventGeneratorSimulation, model=Model(names))
    M = env.choose('components', [1, 3])
    if env.is_concrete:
        k = env.choose('modules', [0, 1, 2, 20])
        n = env.choose('cascades', [1, 2, 3])
        so = sorted({(env.index('string', 86), env.index('om', 60)) for _ in range(k)})
        cnt = {c: [env.int('photo-electrons', 0, 5) for _ in range(n)] for c in so}
    else:
        n, cnt = env.choose('photo-electrons', [(1, {}), (1, {(85, 59): [2]}), (1, {(0, 0): [1], (13, 7): [3]}), (2, {(0, 59): [1, 0], (85, 0): [1, 1]}), (2, {(77, 3): [0, 1], (77, 4): [1, 2]}), (2, {(5, 5): [0, 0]})])
        so = sorted(cnt)
    q = L.zeros([n, 86, 60, 1], dtype='int64')
    for (s, o), ns in cnt.items():
        for i, c in enumerate(ns):
            q[i, s, o, 0] = c
    sh = [n, 86, 60]
    w = env.arr('weights', sh + [M], lo=1e-3, hi=2., strict=True)
    if env.is_concrete:
        w = w / L.sum(w, axis=-1, keepdims=True)
    mu, sigma, r = env.arr('mu', sh + [M]), env.arr('sigma', sh + [M], lo=0.1, strict=True), env.arr('r', sh + [M], lo=0.1, strict=True)
    charges, var = env.arr('charges', sh + [1], lo=0.1, strict=True), env.arr('variance', sh + [1], lo=0.1, strict=True)
    src = env.tensor('hypotheses', [n, len(names)], dtype='float64')
    rng, drawn, ppf = Rng(env), [], []
    x.random_service = rng

    def quantile(x, mu=None, sigma=None, r=None):
        out = env.arr('quantile%d' % len(ppf), [x.shape[0]])
        ppf.append((x, mu, sigma, r, out * 1.))
        return out

    def number(rng=None, mu=None, alpha_or_var=None, param_is_alpha=None):
        drawn.append((rng, mu, alpha_or_var, param_is_alpha))
        return q * 1
    env.patch(m.basis_functions, 'asymmetric_gauss_ppf', quantile)
    env.patch(m.basis_functions, 'sample_from_negative_binomial', number)
    res = dict(dom_charges=charges, dom_charges_variance=var, latent_var_scale=w * 1., latent_var_mu=mu, latent_var_sigma=sigma, latent_var_r=r)
    out = x.sample_pulses({k: Graph(v) for k, v in res.items()}, src if not env.is_concrete else Graph(env.ref(src)))
    env.concrete('one draw', len(drawn) == 1 and drawn[0][0] is rng and drawn[0][3] is False)
    env.equal('mean number', drawn[0][1], charges)
    env.equal('variance of the number', drawn[0][2], var)
    hit = [c for c in so if sum(cnt[c])]
    env.concrete('modules with pulses', sorted(out) == [(s + 1, o + 1) for s, o in hit])
    cum = L.cumsum(w, axis=-1)
    cum[..., -1] = 1.00000001
    ch = [c for c in rng.calls if len(c[2].shape) == 1]
    un = [c for c in rng.calls if len(c[2].shape) == 2]
    env.concrete('draws', len(ch) == len(un) == len(ppf) == sum(1 for c in hit for v in cnt[c] if v))
    env.concrete('ranges', all((lo, hi) == (0., 1.) for lo, hi, _ in un) and all(0 < lo < hi for lo, hi, _ in ch))
    k = 0
    src = env.ref(src)
    for s, o in hit:
        series = out[(s + 1, o + 1)]
        env.concrete('number of pulses', len(series) == sum(cnt[(s, o)]))
        times, cs = [], []
        for i, num in enumerate(cnt[(s, o)]):
            if not num:
                continue
            (X, MU, SI, R, Q), u, c = ppf[k], un[k][2], ch[k][2]
            k += 1
            for p in range(num):
                env.equal('second random number', X[p], u[p, 1])
                for j in range(M):
                    here = u[p, 0] <= cum[i, s, o, j]
                    if j:
                        here = here & (u[p, 0] > cum[i, s, o, j - 1])
                    for nm, g, v in (('mu', MU, mu), ('sigma', SI, sigma), ('r', R, r)):
                        env.equal('%s of component %d' % (nm, j), L.where(here, g[p], 0.), L.where(here, v[i, s, o, j], 0.))
            times.append(Q * 1000. + src[i, names.index('time')])
            cs.append(c * (num / L.sum(c)))
        if not times:
            continue
        tt, cc = L.concatenate(times), L.concatenate(cs)
        order = L.argsort(tt)
        for p, pulse in enumerate(series):
            env.equal('time', pulse.time, tt[order][p])
            env.equal('charge', pulse.charge, cc[order][p])


@contract(CONTRACTS, [S + 'DAQ'])
def event(env):
    """the pulses written to the frame are sampled from the prediction for the
    cascades of its event tree"""
    m = module(env)
    x, mgr, model, _, pushed, _ = configured(env, m, NAMES[0])
    tracks, cascades = env.choose('tracks', [[], ['t']]), ['a', 'b']
    tree, seen = Obj(), []
    x.get_light_sources = lambda t: (cascades, tracks) if t is tree else None
    # with or without the frame
    x.convert_cascades_to_tensor = lambda c, *f, **k: [seen.append(('convert', c)), 'hypotheses'][1]
    x.get_model_tensors = lambda h: [seen.append(('model', h)), 'tensors'][1]
    x.sample_pulses = lambda t, h: [seen.append(('sample', t, h)), 'pulses'][1]
    frame = {'Tree': tree}
    if tracks:
        env.raises('tracks', NotImplementedError, lambda: x.DAQ(frame))
        env.concrete('nothing is written', frame == {'Tree': tree} and not pushed)
        return
    x.DAQ(frame)
    env.concrete('in order', seen == [('convert', cascades), ('model', 'hypotheses'), ('sample', 'tensors', 'hypotheses')])
    env.concrete('written', frame == {'Tree': tree, 'Out': 'pulses'} and len(pushed) == 1 and pushed[0] is frame)


@contract(CONTRACTS, ['manager.source.SourceManager.get_model_tensors_function'], bounded='ensembles of up to 2 models')
def prediction(env):
    """the prediction function evaluates the chosen model at the given
    hypotheses, not in training, with no module or pulse excluded"""
    m = env.mod('manager.source')
    seen = []

    class Net:
        num_parameters = 4

        def __init__(self, tag):
            self.tag = tag

        def get_tensors(self, batch, is_training=None, parameter_tensor_name='x_parameters'):
            seen.append((self.tag, batch, is_training, parameter_tensor_name))
            return {'dom_charges': batch[parameter_tensor_name] * (2. + self.tag), 'ex': batch['x_dom_exclusions']}
    nets = [Net(0), Net(1)]
    T = lambda shape: Obj(dtype='float64', shape=shape)
    x = subclass(m.SourceManager, models=nets, data_trafo=Obj(data={'tensors': {'x_pulses': T([-1, env.choose('features', [2, 3])]), 'x_parameters': T([-1, 4])}}))
    i = env.choose('model', [None, 0, 1])
    f = x.get_model_tensors_function() if i is None else x.get_model_tensors_function(i)
    n = env.choose('hypotheses', [1, 3])
    p = env.tensor('p', [n, 4], dtype='float64')
    out = f(p)
    env.equal('prediction at the hypotheses', out['dom_charges'], env.ref(p) * (2. + (i or 0)))
    tag, batch, training, name = seen[-1]
    env.concrete('chosen model, not in training', tag == (i or 0) and training is False)
    a, s, o = env.index('event', n), env.index('string', 86), env.index('om', 60)
    ex = env.ref(out['ex'])
    env.concrete('every module of every hypothesis', list(ex.shape) == [n, 86, 60, 1])
    env.prove('no module is excluded', ex[a, s, o, 0])
