"""P10: pulse data."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Tables
CONTRACTS = []
M = 'data.modules.data.pulse_data.PulseDataModule.'
BOUND = 'up to 3 events and up to 3 pulses or exclusions; any modules, times and charges'
NAMES = ['x_dom_charge', 'x_dom_exclusions', 'x_pulses', 'x_pulses_ids', 'x_time_exclusions', 'x_time_exclusions_ids', 'x_time_window']
IDS = [(11, 5, 0, 1), (11, 5, 2, 1), (11, 7, 0, 1)]      # run, event, sub event, stream


def ready(env, quantiles=False, dom_key=None, time_key=None, discard=False, precision='float32'):
    m = env.mod('data.modules.data.pulse_data')
    mod = m.PulseDataModule(logger=NullLog())
    mod.configure(config_data=None, pulse_key='Pulses', dom_exclusions_key=dom_key, time_exclusions_key=time_key, float_precision=precision,
                  add_charge_quantiles=quantiles, discard_pulses_from_excluded_doms=discard)
    return m, mod


class Item:
    """a pulse, a time window or an excluded module"""

    def __init__(self, env, event, **k):
        self.event = event
        self.string = env.int('string', 1, 87)
        self.om = env.int('om', 1, 65)
        if env.is_concrete:                      # make modules coincide
            self.string, self.om = env.rng.choice([1, 86]), env.rng.choice([1, 2, 60, 61], p=[.4, .1, .4, .1])
            self.string, self.om = int(self.string), int(self.om)
        self.__dict__.update(k)


def pulse(env, event):
    env.finite()
    q, t = env.pos('charge'), env.real('time')
    return Item(env, event, charge=q, time=t)


def window(env, event):
    a, b = env.real('start'), env.real('stop')
    return Item(env, event, start=a, stop=b)


def some(env, name, make, events, most):
    """items of the events, in the order of the file"""
    n = env.choose('number of %s' % name, list(range(most + 1)))
    if env.is_concrete and n == most:        # runs: also longer lists
        n += env.int('more %s' % name, 0, 4)
    at, out = 0, []
    for _ in range(n):
        at = at + (env.choose('next event', list(range(events - at))) if at < events - 1 else 0)
        out.append(make(env, at))
    return out


def fill(env, tables, events, pulses, windows=None, doms=None):
    ids = ['Run', 'Event', 'SubEvent', 'SubEventStream']

    def table(key, rows, columns):
        for i, c in enumerate(ids):
            tables.add(key, c, env.np.array([IDS[r.event][i] for r in rows]))
        for c, f in columns:
            tables.add(key, c, env.np.array([f(r) for r in rows]))
    one = lambda r: 1      # noqa
    table('LabelsDeepLearning', [Obj(event=e) for e in range(events)], [])
    table('Pulses', pulses, [('exists', one), ('string', lambda r: r.string), ('om', lambda r: r.om), ('pmt', one), ('vector_index', one),
                             ('time', lambda r: r.time), ('width', lambda r: r.charge * 2), ('charge', lambda r: r.charge), ('flags', one)])
    if windows is not None:
        table('Windows', windows, [('exists', one), ('string', lambda r: r.string), ('om', lambda r: r.om), ('pmt', one), ('vector_index', one),
                                   ('start', lambda r: r.start), ('stop', lambda r: r.stop)])
    if doms is not None:
        table('Doms', doms, [('exists', one), ('vector_index', one), ('string', lambda r: r.string), ('om', lambda r: r.om), ('pmt', one)])


class Key:
    def __init__(self, r):
        self.string, self.om = r.string, r.om


class Series(dict):
    """pulses or windows of the frame; one entry for every item keeps the order"""

    def __init__(self, items):
        dict.__init__(self, {Key(r): [r] for r in items})


def frame_of(pulses, windows=None, doms=None):
    f = {'Pulses': Series(pulses)}
    if windows is not None:
        f['Windows'] = Series(windows)
    if doms is not None:
        f['Doms'] = [Key(r) for r in doms]
    return f


def kept(items):
    return [r for r in items if r.om <= 60]


def total(env, items, e, s, d):
    out = 0.
    for r in items:
        if r.event == e:
            out = out + env.np.where(env.np.logical_and(r.string - 1 == s, r.om - 1 == d), r.charge, 0.)
    return out


def check_pulses(env, got, pulses, events, quantiles, size):
    """the tensors are those of the kept pulses"""
    np = env.np
    t = dict(zip(NAMES, got))
    pulses = kept(pulses)
    env.concrete('all tensors', len(got) == len(NAMES) and size == events)
    dim = 3 if quantiles else 2
    env.concrete('every kept pulse once', tuple(t['x_pulses'].shape) == (len(pulses), dim) and tuple(t['x_pulses_ids'].shape) == (len(pulses), 3))
    env.concrete('shapes', tuple(t['x_dom_charge'].shape) == (events, 86, 60, 1) and tuple(t['x_time_window'].shape) == (events, 2))
    for i, r in enumerate(pulses):
        env.equal('pulse %d: charge and time' % i, t['x_pulses'][i, :2], np.array([r.charge, r.time]), rtol=1e-5, atol=1e-5)
        env.equal('pulse %d: event and module' % i, t['x_pulses_ids'][i], np.array([r.event, r.string - 1, r.om - 1]))
        if quantiles:
            so_far = total(env, pulses[:i + 1], r.event, r.string - 1, r.om - 1)
            env.equal('pulse %d: quantile' % i, t['x_pulses'][i, 2] * total(env, pulses, r.event, r.string - 1, r.om - 1), so_far, rtol=1e-4, atol=1e-5)
    s, d = env.index('s', 86), env.index('d', 60)
    if env.is_concrete and pulses:
        s, d = pulses[-1].string - 1, pulses[-1].om - 1
    for e in range(events):
        env.equal('charge of a module in event %d' % e, t['x_dom_charge'][e, s, d, 0], total(env, pulses, e, s, d), rtol=1e-5, atol=1e-5)
        times = [r.time for r in pulses if r.event == e]
        first, last = t['x_time_window'][e, 0], t['x_time_window'][e, 1]
        if times:
            env.equal('begin of the time window of event %d' % e, first, np.min(np.array(times)), rtol=1e-6)
            env.equal('end of the time window of event %d' % e, last, np.max(np.array(times)), rtol=1e-6)
        else:
            env.concrete('empty window of event %d without pulses' % e, bool(first > 0) and bool(last < 0))


@contract(CONTRACTS, [M + 'get_data_from_hdf', M + '_configure'], bounded=BOUND, time=100)
def pulses_of_files(env):
    """pulses, charges and time windows of the events of a file"""
    events, quantiles = env.choose('events', [1, 2, 3]), env.flag('quantiles')
    pulses = some(env, 'pulses', pulse, events, {1: 3, 2: 3, 3: 2}[events] if not quantiles or events == 1 or env.is_concrete else 2)
    m, mod = ready(env, quantiles)
    tables = Tables(env)
    fill(env, tables, events, pulses)
    env.patch(m, 'pd', tables.pandas)
    size, got = mod.get_data_from_hdf('file')
    check_pulses(env, got, pulses, events, quantiles, size)
    env.concrete('file is closed', tables.open == 0)


@contract(CONTRACTS, [M + 'get_data_from_frame', M + 'create_data_from_frame'], bounded=BOUND, time=100)
def pulses_of_frames(env):
    """pulses, charge and time window of the event of a frame"""
    quantiles = env.flag('quantiles')
    pulses = some(env, 'pulses', pulse, 1, 3)
    m, mod = ready(env, quantiles)
    size, got = env.choose('via', [mod.get_data_from_frame, mod.create_data_from_frame])(frame_of(pulses))
    check_pulses(env, got, pulses, 1, quantiles, size)


def read(env, via_frame, m, mod, events, pulses, windows, doms):
    if via_frame:
        return mod.get_data_from_frame(frame_of(pulses, windows, doms))
    tables = Tables(env)
    fill(env, tables, events, pulses, windows, doms)
    env.patch(m, 'pd', tables.pandas)
    return mod.get_data_from_hdf('file')


@contract(CONTRACTS, [M + 'get_data_from_hdf', M + 'get_data_from_frame'], bounded=BOUND, time=100)
def windows(env):
    """time windows that are excluded, also if there are none or the key does not exist"""
    via_frame = env.flag('frame')
    events = 1 if via_frame else env.choose('events', [1, 2])
    missing = env.flag('key does not exist')
    tws = [] if missing else some(env, 'windows', window, events, 3)
    m, mod = ready(env, time_key='Windows')
    size, got = read(env, via_frame, m, mod, events, [], None if missing else tws, None)
    t = dict(zip(NAMES, got))
    tws = kept(tws)
    env.concrete('every kept window once', tuple(t['x_time_exclusions'].shape) == (len(tws), 2) and tuple(t['x_time_exclusions_ids'].shape) == (len(tws), 3))
    for i, r in enumerate(tws):
        env.equal('window %d: begin and end' % i, t['x_time_exclusions'][i], env.np.array([r.start, r.stop]), rtol=1e-5, atol=1e-5)
        env.equal('window %d: event and module' % i, t['x_time_exclusions_ids'][i], env.np.array([r.event, r.string - 1, r.om - 1]))
    env.concrete('no excluded modules declared or read', t['x_dom_exclusions'] is None)


@contract(CONTRACTS, [M + 'get_data_from_hdf', M + 'get_data_from_frame'], bounded=BOUND, time=100)
def modules(env):
    """excluded modules: those of the event and those that are bad in all events"""
    np = env.np
    via_frame, discard, quantiles = env.flag('frame'), env.flag('discard'), env.is_concrete and env.flag('quantiles')
    events = 1 if via_frame else env.choose('events', [1, 2])
    missing = env.flag('key does not exist')
    doms = [] if missing else some(env, 'doms', Item, events, 3)
    pulses = some(env, 'pulses', pulse, events, 2 if len(doms) < 2 and events == 1 or env.is_concrete else 1 if len(doms) < 3 else 0)
    m, mod = ready(env, quantiles=quantiles, dom_key='Doms', discard=discard)
    bad = env.bools('good', [86, 60], np_like=True)
    env.patch(m, 'detector', Obj(bad_doms_mask=bad))
    size, got = read(env, via_frame, m, mod, events, pulses, None, None if missing else doms)
    t = dict(zip(NAMES, got))
    doms, pulses = kept(doms), kept(pulses)

    def good(e, s, d):
        v = bad[s, d]
        for r in doms:
            if r.event == e:
                v = np.logical_and(v, np.logical_not(np.logical_and(r.string - 1 == s, r.om - 1 == d)))
        return v
    s, d = env.index('s', 86), env.index('d', 60)
    if env.is_concrete and (doms or pulses) and env.flag('of an item'):
        r = (doms + pulses)[0]
        s, d = r.string - 1, r.om - 1
    env.concrete('mask of all modules', tuple(t['x_dom_exclusions'].shape) == (events, 86, 60, 1))
    for e in range(events):
        env.equal('a module is excluded in event %d' % e, t['x_dom_exclusions'][e, s, d, 0], good(e, s, d))
    if discard and not missing:
        left = [r for r in pulses if good(r.event, r.string - 1, r.om - 1)]
    else:
        left = pulses
    env.concrete('pulses of excluded modules are discarded', tuple(t['x_pulses'].shape) == (len(left), 3 if quantiles else 2) and tuple(t['x_pulses_ids'].shape) == (len(left), 3), (t['x_pulses'].shape, len(left)))
    for i, r in enumerate(left):
        env.equal('pulse %d: charge and time' % i, t['x_pulses'][i, :2], np.array([r.charge, r.time]), rtol=1e-5, atol=1e-5)
        env.equal('pulse %d: event and module' % i, t['x_pulses_ids'][i], np.array([r.event, r.string - 1, r.om - 1]))
    env.concrete('no time windows declared or read', t['x_time_exclusions'] is None and t['x_time_exclusions_ids'] is None)


@contract(CONTRACTS, [M + '_configure', M + 'get_data_from_hdf', M + 'get_data_from_frame'])
def declared(env):
    """the tensors that are read are the declared ones, in their shapes and types"""
    quantiles, precision = env.flag('quantiles'), env.choose('precision', ['float32', 'float64'])
    dom_key, time_key = env.choose('doms', [None, 'Doms']), env.choose('windows', [None, 'Windows'])
    via_frame = env.flag('frame')
    m, mod = ready(env, quantiles, dom_key, time_key, env.flag('discard'), precision)
    env.patch(m, 'detector', Obj(bad_doms_mask=env.bools('good', [86, 60], np_like=True)))
    tensors = mod.data['data_tensors']
    env.concrete('declared names', tensors.names == NAMES, tensors.names)
    filled = env.flag('not empty')
    items = (lambda f: [f(env, 0)] if filled else [])    # noqa
    size, got = read(env, via_frame, m, mod, 1, items(pulse), items(window), items(Item))
    wrong = []
    for t, x in zip(tensors.list, got):
        exists = not (t.name == 'x_dom_exclusions' and dom_key is None or 'x_time_ex' in t.name and time_key is None)
        if t.exists != exists or (x is not None) != exists:
            wrong.append('existence of %s' % t.name)
        if not exists:
            continue
        if len(t.shape) != len(x.shape) or any(a is not None and a != b for a, b in zip(t.shape, x.shape)):
            wrong.append('shape of %s' % t.name)
        want = {'x_dom_exclusions': 'bool', 'x_pulses_ids': 'int32', 'x_time_exclusions_ids': 'int32'}.get(t.name, precision)
        if t.dtype != want or getattr(x.dtype, 'name', str(x.dtype)) != want:
            wrong.append('type of %s %r %r' % (t.name, x.dtype, t.dtype))
    env.concrete('tensors as declared', not wrong, wrong)
    env.concrete('references of the vectors', [(t.vector_info['type'], t.vector_info['reference']) for t in tensors.list if t.vector_info is not None]
                 == [('value', 'x_pulses_ids'), ('index', 'x_pulses'), ('value', 'x_time_exclusions_ids'), ('index', 'x_time_exclusions')])


@contract(CONTRACTS, [M + 'get_data_from_hdf', M + 'get_data_from_frame', M + '_configure'])
def refused(env):
    """files without the pulses or the labels are skipped; nothing is read before configuration"""
    m, mod = ready(env)
    tables = Tables(env)
    fill(env, tables, 1, [pulse(env, 0)])
    env.patch(m, 'pd', tables.pandas)
    del tables.tables[env.choose('missing', ['Pulses', 'LabelsDeepLearning'])]
    env.concrete('file is skipped', tuple(mod.get_data_from_hdf('file')) == (None, None))
    env.concrete('file is closed', tables.open == 0)
    new = m.PulseDataModule(logger=NullLog())
    env.raises('not configured: file', ValueError, lambda: new.get_data_from_hdf('file'))
    env.raises('not configured: frame', ValueError, lambda: new.get_data_from_frame({'Pulses': Series([])}))
    env.raises('pulse key', TypeError, lambda: new.configure(config_data=None, pulse_key=3, dom_exclusions_key=None, time_exclusions_key=None,
                                                               float_precision='float32', add_charge_quantiles=False, discard_pulses_from_excluded_doms=False))
    # the declared tensors of a restored model have to be those that are read
    other = m.PulseDataModule(logger=NullLog())
    quantiles = env.flag('quantiles')
    k = dict(pulse_key='Pulses', dom_exclusions_key=None, time_exclusions_key=None, float_precision='float32', add_charge_quantiles=quantiles, discard_pulses_from_excluded_doms=False)
    if quantiles:
        env.raises('other tensors than declared', ValueError, lambda: other.configure(config_data=mod.data['data_tensors'], **k))
    else:
        other.configure(config_data=mod.data['data_tensors'], **k)
        env.concrete('same tensors as declared', other.data['data_tensors'] == mod.data['data_tensors'])
