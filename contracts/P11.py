"""P11: event filters."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Tables, numpyish
CONTRACTS = []
G = 'data.modules.filters.general_filter.GeneralFilterModule.'
OPS = {'>': lambda v, t: v > t, '>=': lambda v, t: v >= t, '<=': lambda v, t: v <= t, '<': lambda v, t: v < t, '==': lambda v, t: v == t}


def ready(env, constraints):
    m = env.mod('data.modules.filters.general_filter')
    f = m.GeneralFilterModule(logger=NullLog())
    f.configure(config_data=None, constraints=constraints)
    return m, f


def every(env, masks, n):
    want = env.np.ones(n, dtype=bool)
    for k in masks:
        want = env.np.logical_and(want, k)
    return want


def beside(env, t):
    """the next number above or below"""
    return float(env.np.nextafter(t, env.rng.choice([-1., 1.]) * 1e300))


def number_of(env):
    return env.choose('constraints', [0, 1, 2, 3])


@contract(CONTRACTS, [G + 'get_event_filter_mask_from_hdf', G + '_configure'])
def from_file(env):
    """any number of events, constraints on named columns"""
    n = env.int('events', 0, 6)
    k = number_of(env)
    values = [env.arr('v%d' % i, [n]) for i in range(k)]
    limits = [env.real('limit') for _ in range(k)]
    ops = [env.choose('op', sorted(OPS)) for _ in range(k)]
    if env.is_concrete:
        for v, t in zip(values, limits):       # make the border case occur
            v[env.rng.uniform(size=n) < .3] = t
            v[env.rng.uniform(size=n) < .2] = beside(env, t)
    tables = Tables(env)
    same_table = env.flag('same table')
    for i, v in enumerate(values):
        tables.add('T0' if same_table else 'T%d' % i, 'c%d' % i, v)
    m, f = ready(env, [['T0' if same_table else 'T%d' % i, 'c%d' % i, ops[i], limits[i]] for i in range(k)])
    env.patch(m, 'pd', tables.pandas)
    got = f.get_event_filter_mask_from_hdf('file', None, n, None)
    env.equal('kept events', env.np.asarray(got), every(env, [OPS[o](v, t) for o, v, t in zip(ops, values, limits)], n))
    env.concrete('files are closed', tables.open == 0)


@contract(CONTRACTS, [G + 'get_event_filter_mask_from_hdf'], bounded='1 to 3 events with vectors of 1 to 3 entries')
def vector_columns(env):
    """constraints on an entry of a vector, which is stored as one row per entry"""
    n = env.choose('events', [1, 2, 3])
    sizes = [env.choose('entries', [1, 2, 3])] * n
    if n > 1 and env.flag('different lengths'):
        sizes[env.choose('longer', [0, 1])] += 1
    col = env.choose('entry', list(range(3)))
    env.assume(col < max(sizes))
    op = env.choose('op', sorted(OPS))
    value = [[env.real('v') for _ in range(sizes[e])] for e in range(n)]
    limit = env.real('limit')
    tables = Tables(env)
    tables.add('T', 'item', env.np.array([value[e][q] for e in range(n) for q in range(sizes[e])]))
    tables.add('T', 'vector_index', env.np.array([q for e in range(n) for q in range(sizes[e])]))
    other = env.arr('w', [n])
    tables.add('U', 'c', other)
    cons = [['T', col, op, limit]]
    both = env.flag('and a named column')
    if both:
        cons.append(['U', 'c', '>', 0.])
    m, f = ready(env, cons)
    env.patch(m, 'pd', tables.pandas)
    go = lambda: env.np.asarray(f.get_event_filter_mask_from_hdf('file', None, n, None))
    if col >= min(sizes):
        # one entry could be taken for that of every event
        env.assume(sum(col < q for q in sizes) > 1)
        env.raises('events without the entry', ValueError, go)
        return
    got = go()
    for e in range(n):
        want = OPS[op](value[e][col], limit)
        if both:
            want = env.np.logical_and(want, other[e] > 0.)
        env.equal('event %d' % e, got[e], want)
    env.concrete('one decision per event', tuple(got.shape) == (n,))


class Attributes:
    """an object of the frame with attributes instead of items"""


@contract(CONTRACTS, [G + 'get_event_filter_mask_from_frame', G + '_configure'])
def from_frame(env):
    """the event of a frame; the same decision as from a file with this event"""
    k = number_of(env)
    kinds = [env.choose('kind', ['item', 'attribute', 'vector']) for _ in range(k)]
    ops = [env.choose('op', sorted(OPS)) if i < 2 else '<=' for i in range(k)]
    values, limits = [env.real('v') for _ in range(k)], [env.real('limit') for _ in range(k)]
    frame, cons, tables = {}, [], Tables(env)
    if env.is_concrete:
        values = [env.rng.choice([t, beside(env, t)]) if env.rng.uniform() < .4 else v for v, t in zip(values, limits)]
    for i, (kind, v) in enumerate(zip(kinds, values)):
        key = 'T%d' % i
        if kind == 'item':
            frame[key] = {'c%d' % i: v, 'other': env.real('u'), key: env.real('u')}
        elif kind == 'attribute':
            frame[key] = Attributes()
            setattr(frame[key], 'c%d' % i, v)
            setattr(frame[key], key, env.real('u'))
        else:
            frame[key] = [env.real('u'), v, env.real('u')]
        cons.append([key, 1 if kind == 'vector' else 'c%d' % i, ops[i], limits[i]])
        if kind == 'vector':
            tables.add(key, 'item', env.np.array(frame[key]))
            tables.add(key, 'vector_index', env.np.array([0, 1, 2]))
        else:
            tables.add(key, 'c%d' % i, env.np.array([v]))
    m, f = ready(env, cons)
    env.patch(m, 'pd', tables.pandas)
    got = env.np.asarray(f.get_event_filter_mask_from_frame(frame, None, 1, None))
    env.concrete('one decision', tuple(got.shape) == (1,))
    env.equal('kept', got, every(env, [env.np.array([OPS[o](v, t)]) for o, v, t in zip(ops, values, limits)], 1))
    env.equal('as from a file', env.np.asarray(f.get_event_filter_mask_from_hdf('file', None, 1, None)), got)


@contract(CONTRACTS, [G + 'get_event_filter_mask_from_frame', G + 'get_event_filter_mask_from_hdf'])
def unknown(env):
    """anything but a supported comparison is rejected, also among others"""
    op = env.choose('op', ['!=', '=', '=>', '<>', 'in', '', None])
    tables = Tables(env)
    tables.add('T', 'c', env.arr('v', [2]))
    m, f = ready(env, [['T', 'c', '>', env.real('limit')], ['T', 'c', op, env.real('limit')]])
    env.patch(m, 'pd', tables.pandas)
    env.raises('file', ValueError, lambda: f.get_event_filter_mask_from_hdf('file', None, 2, None))
    env.raises('frame', ValueError, lambda: f.get_event_filter_mask_from_frame({'T': {'c': env.real('v')}}, None, 1, None))


@contract(CONTRACTS, ['data.modules.filters.dummy.DummyFilterModule.' + k for k in ('get_event_filter_mask_from_hdf', 'get_event_filter_mask_from_frame')])
def no_filter(env):
    """the module without a selection keeps every event"""
    m = env.mod('data.modules.filters.dummy')
    f = m.DummyFilterModule(logger=NullLog())
    f.configure(config_data=None)
    n = env.int('events', 0, 6)
    for k in (f.get_event_filter_mask_from_hdf, f.get_event_filter_mask_from_frame):
        env.equal('all events are kept', env.np.asarray(k(None, None, n, None)), env.np.ones(n, dtype=bool))
