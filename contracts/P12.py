"""P12: labels and seeds."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Tables
CONTRACTS = []
L = 'data.modules.labels.'
CASCADE = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith', 'cascade_azimuth', 'cascade_energy', 'cascade_t']
SEGMENT = ['track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'zenith', 'azimuth', 'track_energy', 'track_anchor_time', 'track_distance_end', 'track_stochasticity']
TRACK = ['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'track_anchor_time', 'track_energy', 'track_distance_start', 'track_distance_end', 'track_stochasticity']
METHODS = ['get_data_from_hdf', 'get_data_from_frame', 'create_data_from_frame', '_configure']


def funcs(module, cls, *more):
    return [L + '%s.%s.%s' % (module, cls, k) for k in METHODS + list(more)]


def track_names(k):
    return TRACK + (['cascade_0000_energy'] if k else []) + [n % i for i in range(1, k) for n in ('cascade_%04d_energy', 'cascade_%04d_distance')]


def ready(env, module, cls, **k):
    m = env.mod(L + module)
    mod = getattr(m, cls)(logger=NullLog())
    mod.configure(config_data=None, float_precision=k.pop('precision', 'float64'), **k)
    return m, mod


def columns(env, names, n):
    """a column for every name; energies are positive"""
    out = {}
    for c in names:
        if 'energy' in c:
            out[c] = env.arr(c, [n], lo=1e-3)
        else:
            out[c] = env.arr(c, [n])
    return out


def table(env, tables, key, cols):
    """columns are stored in another order and among others"""
    names = sorted(cols, reverse=True)
    tables.add(key, 'Event', cols[names[0]])
    for c in names:
        tables.add(key, c, cols[c])
    tables.add(key, 'zzz', cols[names[-1]])


def read(env, m, mod, via, cols, label_key, extra=None, key=None):
    """extra: values of the snowstorm parameters, [event][parameter]"""
    if via == 'file':
        tables = Tables(env)
        table(env, tables, label_key, cols)
        if extra is not None:
            tables.add(key, 'item', env.np.array([v for row in extra for v in row]))
            tables.add(key, 'vector_index', env.np.array([i for row in extra for i in range(len(row))]))
        env.patch(m, 'pd', tables.pandas)
        out = mod.get_data_from_hdf('file')
        env.concrete('file is closed', tables.open == 0 and set(tables.opened) == {'file'})
        return out
    frame = {label_key: {k: v[0] for k, v in cols.items()}}
    frame[label_key]['zzz'] = 0.
    if extra is not None:
        frame[key] = list(extra[0])
    return mod.get_data_from_frame(frame) if via == 'frame' else mod.create_data_from_frame(frame)


def length(env, energy):
    """distance from the vertex to the maximum of a shower"""
    rad = 0.358 / 0.9216
    a, b = 2.01849 + 0.63176 * env.np.log(energy + 1e-6), rad / 0.63207
    x = (a - 1.) / b * rad
    return env.np.where(x > 0., x, 0.)


def direction(env, zenith, azimuth):
    sin, cos = env.np.sin, env.np.cos
    return [-sin(zenith) * cos(azimuth), -sin(zenith) * sin(azimuth), -cos(zenith)]


def shifted(env, c, x, y, z, t, zenith, azimuth, by):
    """moved along the direction with the speed of light"""
    c = dict(c)
    for k, d in zip((x, y, z), direction(env, c[zenith], c[azimuth])):
        c[k] = c[k] + d * by
    c[t] = c[t] + by / 0.299792458
    return c


def check(env, got, names, cols, n, precision='float64'):
    size, tensors = got
    env.concrete('one tensor', len(tensors) == 1)
    x = tensors[0]
    env.equal('number of events', size, n)
    env.concrete('one column for every parameter', len(x.shape) == 2 and int(x.shape[1]) == len(names), x.shape)
    env.concrete('type', getattr(x.dtype, 'name', str(x.dtype)) == precision, x.dtype)
    for i, k in enumerate(names):
        env.equal('column %d is %s' % (i, k), x[:, i], cols[k], rtol=1e-5, atol=1e-5)


def declared(env, mod, names, logs, precision='float64'):
    """the declared tensor: its columns and their logarithms"""
    ts = mod.data['label_tensors']
    env.concrete('one label tensor', ts.names == ['x_parameters'])
    t = ts.list[0]
    env.concrete('declared shape', list(t.shape) == [None, len(names)] and t.dtype == precision and t.type == 'label' and t.trafo, t.shape)
    env.concrete('declared logarithms', [bool(v) for v in t.trafo_log] == logs, t.trafo_log)


def size_of(env, via):
    return env.int('events', 1, 6) if via == 'file' else 1


VIA = ['file', 'frame', 'create']


@contract(CONTRACTS, funcs('cascades', 'CascadeGeneratorLabelModule', '_shift_to_maximum'))
def cascades(env):
    """seven columns; the vertex is moved to the shower maximum on request"""
    via, shift = env.choose('via', VIA), env.flag('shift')
    logs = env.choose('logarithms', [True, False, [False] * 5 + [True, False], [i % 2 == 0 for i in range(7)]])
    precision, key = env.choose('precision', ['float32', 'float64']), env.choose('key', ['LabelsDeepLearning', 'Other'])
    k = {} if key == 'LabelsDeepLearning' else dict(label_key=key)
    m, mod = ready(env, 'cascades', 'CascadeGeneratorLabelModule', shift_cascade_vertex=shift, trafo_log=logs, precision=precision, **k)
    declared(env, mod, CASCADE, [logs] * 7 if isinstance(logs, bool) else logs, precision)
    n = size_of(env, via)
    c = columns(env, CASCADE, n)
    got = read(env, m, mod, via, c, key)
    if shift:
        c = shifted(env, c, *[CASCADE[i] for i in (0, 1, 2, 6, 3, 4)], length(env, c['cascade_energy']))
    check(env, got, CASCADE, c, n, precision)


def snowstorm_values(env, n, p):
    return [[env.real('snow') for _ in range(p)] for _ in range(n)]


def few(env, via):
    return env.choose('events', [1, 2, 3]) if via == 'file' else 1


def with_snowstorm(env, key, n, p, c):
    """(names, columns, stored values)"""
    names = ['snowstorm %d' % i for i in range(p)]
    if key is None:
        return names, dict(c, **{k: env.np.ones(n) for k in names}), None
    values = snowstorm_values(env, n, p)
    return names, dict(c, **{k: env.np.array([values[e][i] for e in range(n)]) for i, k in enumerate(names)}), values if p else None


def snowstorm_settings(env):
    return env.choose('snowstorm key', ['SnowstormParameters', None]), env.choose('snowstorm parameters', [0, 1, 3])


@contract(CONTRACTS, funcs('snowstorm_cascades', 'SnowstormCascadeGeneratorLabelModule', '_shift_to_maximum'), bounded='up to 3 events of a file, up to 3 snowstorm parameters')
def snowstorm_cascades(env):
    """cascade labels, additional labels, then the snowstorm parameters of the event"""
    via, shift, logs = env.choose('via', VIA), env.flag('shift'), env.choose('logarithms', [True, 'list'])
    key, p = snowstorm_settings(env)
    more = env.choose('additional labels', [None, ['b', 'a']])
    names = CASCADE + (more or [])
    log = [i % 2 == 0 for i in range(len(names))] if logs == 'list' else logs
    m, mod = ready(env, 'snowstorm_cascades', 'SnowstormCascadeGeneratorLabelModule', shift_cascade_vertex=shift, trafo_log=log, snowstorm_key=key, num_snowstorm_params=p, **({} if more is None else {'additional_labels': more}))
    n = few(env, via)
    c = columns(env, names, n)
    extra, c, values = with_snowstorm(env, key, n, p, c)
    declared(env, mod, names + extra, (log if logs == 'list' else [log] * len(names)) + [False] * p)
    got = read(env, m, mod, via, {k: c[k] for k in names}, 'LabelsDeepLearning', values, key)
    if shift:
        c = shifted(env, c, *[CASCADE[i] for i in (0, 1, 2, 6, 3, 4)], length(env, c['cascade_energy']))
    check(env, got, names + extra, c, n)


@contract(CONTRACTS, funcs('snowstorm_track_segment', 'SnowstormTrackSegmentGeneratorLabelModule'), bounded='up to 3 events of a file, up to 3 snowstorm parameters')
def segments(env):
    """track segments, which start at their anchor point"""
    via, logs = env.choose('via', VIA), env.choose('logarithms', [True, False, 'list'])
    key, p = snowstorm_settings(env)
    log = [i % 2 == 0 for i in range(9)] if logs == 'list' else logs
    m, mod = ready(env, 'snowstorm_track_segment', 'SnowstormTrackSegmentGeneratorLabelModule', trafo_log=log, snowstorm_key=key, num_snowstorm_params=p)
    n = few(env, via)
    c = columns(env, SEGMENT, n)
    extra, c, values = with_snowstorm(env, key, n, p, c)
    declared(env, mod, SEGMENT + extra, (log if logs == 'list' else [log] * 9) + [False] * p)
    at_start = env.flag('starts at the anchor')
    start = env.np.zeros(n)
    if not at_start:
        start[env.choose('event', list(range(n)))] = env.real('start', lambda v: v != 0)
    got = read(env, m, mod, via, dict({k: c[k] for k in SEGMENT}, track_distance_start=start), 'EventGeneratorMuonTrackLabels_c0000', values, key)
    if at_start:
        check(env, got, SEGMENT + extra, c, n)
    else:
        env.concrete('files or frames with other segments are skipped', tuple(got) == (None, None))


@contract(CONTRACTS, funcs('snowstorm_tracks', 'SnowstormTrackGeneratorLabelModule', '_shift_parameters', '_get_cascade_extension'), bounded='up to 3 events of a file, up to 3 cascades, up to 3 snowstorm parameters')
def tracks(env):
    """track labels and cascades along the track; on request the anchor is moved
    to the maximum of the first cascade and every cascade to its own maximum"""
    via, shift, logs, k = env.choose('via', VIA), env.flag('shift'), env.choose('logarithms', [True, 'list']), env.choose('cascades', [0, 1, 2, 3])
    key, p = snowstorm_settings(env) if k < 3 or env.is_concrete else ('SnowstormParameters', 1)
    names = track_names(k)
    log = [i % 2 == 0 for i in range(len(names))] if logs == 'list' else logs
    m, mod = ready(env, 'snowstorm_tracks', 'SnowstormTrackGeneratorLabelModule', shift_cascade_vertex=shift, trafo_log=log, num_cascades=k, snowstorm_key=key, num_snowstorm_params=p)
    n = few(env, via)
    c = columns(env, names, n)
    extra, c, values = with_snowstorm(env, key, n, p, c)
    declared(env, mod, names + extra, (log if logs == 'list' else [log] * len(names)) + [False] * p)
    got = read(env, m, mod, via, {q: c[q] for q in names}, 'EventGeneratorMuonTrackLabels', values, key)
    if shift and k:
        by = length(env, c['cascade_0000_energy'])
        old = c
        c = shifted(env, c, 'track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'track_anchor_time', 'zenith', 'azimuth', by)
        for q in ('track_distance_start', 'track_distance_end'):     # same points of the track
            c[q] = old[q] - by
        for i in range(1, k):
            q = 'cascade_%04d_distance' % i
            c[q] = old[q] - by + length(env, old['cascade_%04d_energy' % i])
    check(env, got, names + extra, c, n)


@contract(CONTRACTS, funcs('muons', 'DummyMuonFixedCascadesLabelModule'))
def muons(env):
    """cascades of equal energies, of at least 100 GeV"""
    via, k = env.choose('via', VIA), env.choose('cascades', [1, 2, 5])
    logs = env.choose('logarithms', [True, False, 'list'])
    names = [q for q in CASCADE if q != 'cascade_energy'] + ['E%d' % i for i in range(k)]
    log = [i % 2 == 0 for i in range(len(names))] if logs == 'list' else logs
    m, mod = ready(env, 'muons', 'DummyMuonFixedCascadesLabelModule', trafo_log=log, num_cascades=k)
    declared(env, mod, names, log if logs == 'list' else [log] * len(names))
    n = size_of(env, via)
    c = columns(env, CASCADE, n)
    if env.is_concrete:
        c['cascade_energy'] = c['cascade_energy'] * 100.
    got = read(env, m, mod, via, c, 'LabelsDeepLearning')
    e = c['cascade_energy'] / k
    for i in range(k):
        c['E%d' % i] = env.np.where(e > 100., e, 100.)
    check(env, got, names, c, n)


KINDS = {'cascades': ('CascadeGeneratorLabelModule', dict(shift_cascade_vertex=False), 7),
         'snowstorm_cascades': ('SnowstormCascadeGeneratorLabelModule', dict(shift_cascade_vertex=False, num_snowstorm_params=2), 9),
         'snowstorm_track_segment': ('SnowstormTrackSegmentGeneratorLabelModule', dict(num_snowstorm_params=2), 11),
         'snowstorm_tracks': ('SnowstormTrackGeneratorLabelModule', dict(shift_cascade_vertex=False, num_cascades=2, num_snowstorm_params=2), 15),
         'muons': ('DummyMuonFixedCascadesLabelModule', dict(num_cascades=2), 8)}


@contract(CONTRACTS, [L + '%s.%s.%s' % (k, v[0], q) for k, v in KINDS.items() for q in METHODS])
def refused(env):
    """other tensors than declared, missing labels, use before configuration"""
    kind = env.choose('kind', sorted(KINDS))
    cls, settings, width = KINDS[kind]
    m, mod = ready(env, kind, cls, trafo_log=True, **settings)
    again = getattr(m, cls)(logger=NullLog())
    other = env.choose('other', [None, 'float32', 'trafo_log'])
    s = dict(settings, config_data=mod.data['label_tensors'], float_precision='float32' if other == 'float32' else 'float64', trafo_log=other != 'trafo_log')
    if other is None:
        again.configure(**s)
        env.concrete('the same tensors', again.data['label_tensors'] == mod.data['label_tensors'])
    else:
        env.raises('other tensors than those declared', ValueError, lambda: again.configure(**s))
    new = getattr(m, cls)(logger=NullLog())
    env.raises('file before configuration', ValueError, lambda: new.get_data_from_hdf('file'))
    env.raises('frame before configuration', ValueError, lambda: new.get_data_from_frame({}))
    # a missing column or key, whichever it is
    key = mod.configuration.config['label_key']
    names = {'snowstorm_track_segment': SEGMENT + ['track_distance_start'], 'snowstorm_tracks': track_names(2)}.get(kind, CASCADE)
    gone = env.choose('missing', list(range(len(names) + 1)) + (['snowstorm'] if 'snow' in kind else []))
    if gone != 'snowstorm' and gone > len(names):
        return
    tables = Tables(env)
    frame = {key: {}, 'SnowstormParameters': [1., 2.]}
    for i, c in enumerate(names):
        if i != gone:
            tables.add(key, c, env.np.zeros(1))
            frame[key][c] = 0.
    tables.add('SnowstormParameters', 'item', env.np.array([1., 2.]))
    tables.add('SnowstormParameters', 'vector_index', env.np.array([0, 1]))
    if gone == len(names):
        del tables.tables[key], frame[key]
    if gone == 'snowstorm':
        del tables.tables['SnowstormParameters'], frame['SnowstormParameters']
    env.patch(m, 'pd', tables.pandas)
    env.concrete('file is skipped', tuple(mod.get_data_from_hdf('file')) == (None, None))
    env.concrete('file is closed', tables.open == 0)
    env.concrete('frame is skipped', tuple(mod.get_data_from_frame(frame)) == (None, None))


@contract(CONTRACTS, funcs('snowstorm_cascades', 'SnowstormCascadeGeneratorLabelModule') + funcs('snowstorm_tracks', 'SnowstormTrackGeneratorLabelModule') + funcs('snowstorm_track_segment', 'SnowstormTrackSegmentGeneratorLabelModule'))
def wrong_number(env):
    """another number of snowstorm parameters than declared is never cut or filled"""
    kind = env.choose('kind', [k for k in sorted(KINDS) if 'snow' in k])
    cls, settings, width = KINDS[kind]
    m, mod = ready(env, kind, cls, trafo_log=True, **settings)
    key = mod.configuration.config['label_key']
    names = {'snowstorm_track_segment': SEGMENT + ['track_distance_start'], 'snowstorm_tracks': track_names(2)}.get(kind, CASCADE)
    # in the file of the last case there is no vector for the second event, or one too many
    p = env.choose('stored parameters', [1, 3, 4, 2])
    tables = Tables(env)
    stored = list(range(p)) * 2 if p != 2 else env.choose('stored vectors', [[0, 1], [0, 1, 0], [0, 1, 1], [0, 1] * 3, [0, 1, 0, 1, 1], [0, 1, 0, 1, 0]])
    frame = {key: {c: 0. for c in names}, 'SnowstormParameters': [1.] * p}
    for c in names:
        tables.add(key, c, env.np.zeros(2))
    tables.add('SnowstormParameters', 'item', env.np.array([1.] * len(stored)))
    tables.add('SnowstormParameters', 'vector_index', env.np.array(stored))
    env.patch(m, 'pd', tables.pandas)
    env.concrete('file is skipped', tuple(mod.get_data_from_hdf('file')) == (None, None))
    if p == 2:
        frame['SnowstormParameters'] = [env.np.zeros(2), 1.]
    env.concrete('frame is skipped', tuple(mod.get_data_from_frame(frame)) == (None, None))


S = 'data.modules.misc.seed_loader.SeedLoaderMiscModule.'


def seeds(env, names, parameters, **k):
    m = env.mod('data.modules.misc.seed_loader')
    mod = m.SeedLoaderMiscModule(logger=NullLog())
    mod.configure(config_data=None, seed_names=names, seed_parameter_names=parameters, float_precision='float64', **k)
    return m, mod


def check_seeds(env, mod, got, names, parameters, values, n):
    size, tensors = got
    env.equal('number of events', size, n)
    order = mod.data['misc_tensors'].names
    env.concrete('a tensor for every seed', sorted(order) == sorted(names) and len(tensors) == len(names))
    for t, x in zip(mod.data['misc_tensors'].list, tensors):
        env.concrete('declared shape of %s' % t.name, list(t.shape) == [None, len(parameters)] and len(x.shape) == 2 and int(x.shape[1]) == len(parameters))
        for i, p in enumerate(parameters):
            env.equal('column %d of %s is %s' % (i, t.name, p), x[:, i], values[t.name][p])


@contract(CONTRACTS, [S + 'get_data_from_hdf', S + '_configure'])
def seeds_of_files(env):
    """every seed has the columns of the named parameters in their order;
    parameters that do not exist get their missing value"""
    names = env.choose('seeds', [['b'], ['b', 'a'], ['c', 'a', 'b']])
    parameters = env.choose('parameters', [['x', 'zenith', 'energy'], ['energy', 'x']])
    n = env.int('events', 1, 6)
    missing = env.choose('missing', [None, 'x', 'energy'])
    only = env.choose('of', names)
    how = env.choose('missing value', [{}, dict(missing_value=7.), dict(missing_value_dict={'x': 3., 'energy': 5.}), dict(missing_value=7., missing_value_dict={'x': 3.}), dict(missing_value=0.),
                                       dict(missing_value=7., missing_value_dict={'x': 0., 'energy': 0.})])
    m, mod = seeds(env, names, parameters, **how)
    tables, values, default = Tables(env), {}, None
    for s in names:
        values[s] = {}
        tables.add(s, 'other', env.arr('o', [n]))
        for p in sorted(parameters):
            v = env.arr(p, [n])
            if p == missing and s == only:
                default = how.get('missing_value_dict', {}).get(p, how.get('missing_value'))
                values[s][p] = None if default is None else default * env.np.ones(n)
            else:
                tables.add(s, p, v)
                values[s][p] = v
    env.patch(m, 'pd', tables.pandas)
    got = mod.get_data_from_hdf('file')
    env.concrete('file is closed', tables.open == 0)
    if missing is not None and default is None and missing in parameters:
        env.concrete('files without a parameter are skipped', tuple(got) == (None, None))
    else:
        check_seeds(env, mod, got, names, parameters, values, n)


@contract(CONTRACTS, [S + 'get_data_from_frame', S + 'create_data_from_frame', S + '_configure'])
def seeds_of_frames(env):
    """seeds of frames are maps or particles"""
    names = env.choose('seeds', [['b'], ['b', 'a']])
    parameters = env.choose('parameters', [['x', 'zenith', 'energy', 'u', 'time'], ['energy', 'azimuth', 'time', 'x', 'y', 'z']])
    particle = env.choose('particle', [None] + names)
    missing = env.choose('missing', [None, 'energy', 'u'])
    how = env.choose('missing value', [{}, dict(missing_value=7.), dict(missing_value_dict={'u': 3., 'energy': 5.}), dict(missing_value=0.),
                                       dict(missing_value=7., missing_value_dict={'u': 0., 'energy': 0.})])
    m, mod = seeds(env, names, parameters, **how)
    values, frame, skipped = {}, {}, False
    for s in names:
        v = {p: env.real(p) for p in sorted(parameters)}
        stored = {p: x for p, x in v.items() if p != missing and (s != particle or p != 'u')}
        default = {p: how.get('missing_value_dict', {}).get(p, how.get('missing_value')) for p in parameters}
        values[s] = {p: stored[p] if p in stored else default[p] for p in parameters}
        skipped = skipped or any(x is None for x in values[s].values())
        if s == particle:
            q = m.dataclasses.I3Particle()
            q.__dict__.update({p: x for p, x in stored.items() if p not in ('x', 'y', 'z', 'zenith', 'azimuth')})
            type(q).__getattr__ = absent
            q.__dict__.update(pos=Obj(**{p: stored[p] for p in 'xyz' if p in stored}), dir=Obj(**{p: stored[p] for p in ('zenith', 'azimuth') if p in stored}))
            frame[s] = q
        else:
            frame[s] = dict(stored, other=1.)
    got = env.choose('via', [mod.get_data_from_frame, mod.create_data_from_frame])(frame)
    if skipped:
        env.concrete('frames without a parameter are skipped', tuple(got) == (None, None))
    else:
        check_seeds(env, mod, got, names, parameters, {s: {p: env.np.array([x]) for p, x in v.items()} for s, v in values.items()}, 1)
    del frame[names[-1]]
    env.concrete('frames without a seed are skipped', tuple(mod.get_data_from_frame(frame)) == (None, None))


def absent(self, name):
    raise AttributeError(name)


@contract(CONTRACTS, [S + 'get_data_from_hdf'], bounded='1 to 3 events')
def different_sizes(env):
    """seeds of different numbers of events are not put together"""
    m, mod = seeds(env, ['a', 'b'], ['x'])
    na, nb = env.choose('events', [1, 2, 3]), env.choose('other events', [1, 2, 3])
    tables = Tables(env)
    tables.add('a', 'x', env.arr('a', [na]))
    tables.add('b', 'x', env.arr('b', [nb]))
    env.patch(m, 'pd', tables.pandas)
    if na != nb:
        env.raises('different numbers of events', ValueError, lambda: mod.get_data_from_hdf('file'))
    else:
        env.concrete('same numbers of events', mod.get_data_from_hdf('file')[0] == na)
    new = m.SeedLoaderMiscModule(logger=NullLog())
    env.raises('file before configuration', ValueError, lambda: new.get_data_from_hdf('file'))
    env.raises('frame before configuration', ValueError, lambda: new.get_data_from_frame({}))


DUMMIES = [('data.modules.labels.dummy', 'DummyLabelModule', 'label_tensors'), ('data.modules.misc.dummy', 'DummyMiscModule', 'misc_tensors'), ('data.modules.weights.dummy', 'DummyWeightModule', 'weight_tensors')]


@contract(CONTRACTS, ['%s.%s.%s' % (m, c, f) for m, c, _ in DUMMIES for f in ('_configure', 'get_data_from_hdf', 'get_data_from_frame', 'create_data_from_frame', 'write_data_to_frame')])
def no_data(env):
    """modules that stand for no labels, no weights or no further data declare
    no tensors, read none and leave frames as they are"""
    module, cls, key = env.choose('module', DUMMIES)
    m = env.mod(module)
    config = env.choose('config_data', [None, 'data'])
    x = getattr(m, cls)(logger=NullLog())
    x.configure(config_data=config)
    env.concrete('no tensors', list(x.data) == [key] and list(x.data[key].names) == [] and len(x.data[key].list) == 0)
    env.concrete('settings', x.configuration.config == {'config_data': config})
    frame = {'a': 1}
    for got in (x.get_data_from_hdf('file'), x.get_data_from_frame(frame), x.create_data_from_frame(frame)):
        env.concrete('no data', got[0] is None and all(v is None for v in got[1]))
    x.write_data_to_frame((), frame)
    env.concrete('frame', frame == {'a': 1})


WRITERS = [(L + 'cascades', 'CascadeGeneratorLabelModule'), (L + 'muons', 'DummyMuonFixedCascadesLabelModule'), (L + 'snowstorm_cascades', 'SnowstormCascadeGeneratorLabelModule'),
           (L + 'snowstorm_track_segment', 'SnowstormTrackSegmentGeneratorLabelModule'), (L + 'snowstorm_tracks', 'SnowstormTrackGeneratorLabelModule'),
           ('data.modules.misc.seed_loader', 'SeedLoaderMiscModule')]


@contract(CONTRACTS, ['%s.%s.write_data_to_frame' % w for w in WRITERS])
def frames_are_left_alone(env):
    """labels and seeds are read, not written, and only by a configured module"""
    module, cls = env.choose('module', WRITERS)
    x = getattr(env.mod(module), cls)(logger=NullLog())
    frame = {'a': 1}
    env.raises('not configured', ValueError, lambda: x.write_data_to_frame((), frame))
    env.raises('not configured', ValueError, lambda: x.get_data_from_frame(frame))
    env.raises('not configured', ValueError, lambda: x.create_data_from_frame(frame))
    env.raises('not configured', ValueError, lambda: x.get_data_from_hdf('file'))
    x._is_configured = True
    x.write_data_to_frame((), frame)
    env.concrete('frame', frame == {'a': 1})
