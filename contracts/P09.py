"""P09: batches of events."""
import itertools
from pyvc.con import contract
from contracts.common import Obj, NullLog, deep
from contracts.sched import Sched, Stuck
CONTRACTS = []
B, M = 'data.handler.base.BaseDataHandler.', 'data.handler.modular.ModuleDataHandler.'
KINDS = ['data', 'label', 'weight', 'misc']


def tensor_lists(env, which=('data', 'label', 'weight', 'misc')):
    """tensors of all types, with vectors and tensors that do not exist"""
    t = env.mod('data.tensor')

    def T(name, shape, kind, dtype='float32', **k):
        return t.DataTensor(name=name, shape=shape, tensor_type=kind, dtype=dtype, **k)
    lists = {'data': [T('x_dom', [None, 2, 1], 'data'), T('x_excl', [None, 2, 1], 'data', 'bool', exists=False),
                      T('x_pulses', [None, 2], 'data', vector_info={'type': 'value', 'reference': 'x_pulses_ids'}),
                      T('x_pulses_ids', [None, 2], 'data', 'int32', vector_info={'type': 'index', 'reference': 'x_pulses'}),
                      T('x_tw', [None, 2], 'data', vector_info={'type': 'value', 'reference': 'x_tw_ids'}, exists=False),
                      T('x_tw_ids', [None, 2], 'data', 'int32', vector_info={'type': 'index', 'reference': 'x_tw'}, exists=False)],
             'label': [T('x_parameters', [None, 2], 'label', 'float64'), T('more', [None, 1], 'label')],
             'weight': [T('weights', [None, 1], 'weight', exists='weight' in which)] if 'no weights' not in which else [],
             'misc': [T('seed', [None, 1], 'misc'), T('other', [None, 1], 'misc')] if 'no misc' not in which else []}
    return {k: t.DataTensorList(v) for k, v in lists.items()}, t.DataTensorList(sum([lists[k] for k in KINDS], []))


class Event:
    """one event: an identifying label and values"""

    def __init__(self, env, i, pulses):
        self.id = float(i)
        self.dom, self.par, self.weight, self.seed, self.more, self.other = ([env.real(k) for _ in range(n)] for k, n in (('dom', 2), ('par', 1), ('weight', 1), ('seed', 1), ('more', 1), ('other', 1)))
        self.pulses = [[env.real('charge'), env.real('time')] for _ in range(pulses)]
        self.where = [10 * i + q for q in range(pulses)]


def stack(env, rows, width, dtype):
    if not rows:
        return env.np.zeros((0,) + tuple(width), dtype=dtype)
    return env.np.array(rows, dtype=dtype)


def data_of(env, events, names, wide='float64'):
    """the events as tensors"""
    ids = [[e, w] for e, ev in enumerate(events) for w in ev.where]
    d = {'x_dom': stack(env, [[[v] for v in ev.dom] for ev in events], (2, 1), wide), 'x_excl': None, 'x_tw': None, 'x_tw_ids': None,
         'x_pulses': stack(env, [p for ev in events for p in ev.pulses], (2,), wide), 'x_pulses_ids': stack(env, ids, (2,), 'int64'),
         'x_parameters': stack(env, [[ev.id] + ev.par for ev in events], (2,), wide), 'weights': stack(env, [ev.weight for ev in events], (1,), wide),
         'seed': stack(env, [ev.seed for ev in events], (1,), wide), 'more': stack(env, [ev.more for ev in events], (1,), wide),
         'other': stack(env, [ev.other for ev in events], (1,), wide)}
    return [d[n] for n in names]


def number(x):
    x = getattr(x, 'item', lambda: x)()
    if hasattr(x, 'e'):
        from pyvc.sym import const_num
        import z3
        x = const_num(z3.simplify(x.e))
    return float(x)


def check_events(env, name, got, names, events, order=None, absent='none'):
    """got (tensors of a batch) are exactly the given events, in the given order
    (or in the order of their identifying labels)"""
    np = env.np
    got = dict(zip(names, got))
    n = len(events)
    env.concrete(name + ': number of events', tuple(got['x_parameters'].shape) == (n, 2))
    if tuple(got['x_parameters'].shape) != (n, 2):
        return
    by_id = {e.id: e for e in events}
    ids = [number(got['x_parameters'][i, 0]) for i in range(n)]
    env.concrete(name + ': these events', sorted(ids) == sorted(by_id) if order is None else ids == [e.id for e in order])
    if sorted(ids) != sorted(by_id):
        return
    evs = [by_id[i] for i in ids]
    for k, want in zip(names, data_of(env, evs, names)):
        if want is None:
            if absent == 'none':
                env.concrete('%s: %s does not exist' % (name, k), got[k] is None)
        else:
            env.concrete('%s: shape of %s' % (name, k), tuple(got[k].shape) == tuple(want.shape))
            if tuple(got[k].shape) == tuple(want.shape):
                env.equal('%s: %s' % (name, k), got[k], want, rtol=1e-5, atol=1e-5)


# --- one batch <-> events
def assignment(env, n, events):
    return [env.choose('event of pulse', list(range(events))) for _ in range(n)]


@contract(CONTRACTS, [B + 'batch_to_event_structure'], bounded='up to 3 events and 4 pulses, in any assignment')
def to_events(env):
    """every event gets its own rows, in order"""
    m = env.mod('data.handler.base')
    h = m.BaseDataHandler.__new__(m.BaseDataHandler)
    h._untracked_data = {'mp_processes': [], 'mp_managers': []}
    env.patch(m, 'time', Obj(sleep=lambda t: None))
    events, n = env.choose('events', [0, 1, 2, 3]), env.choose('pulses', [0, 1, 2, 3, 4])
    env.assume(events > 0 or n == 0)
    own = assignment(env, n, events)
    values, other = [[env.real('q'), env.real('t')] for _ in range(n)], [env.int('string', 0, 9) for _ in range(n)]
    v = stack(env, values, (2,), 'float64')
    i = stack(env, [[e, s] for e, s in zip(own, other)], (2,), 'int64')
    rv, ri = h.batch_to_event_structure(v, i, events)
    env.concrete('one entry per event', len(rv) == events and len(ri) == events)
    for e in range(events):
        rows = [k for k in range(n) if own[k] == e]
        env.equal('values of event %d' % e, rv[e], stack(env, [values[k] for k in rows], (2,), 'float64'))
        env.equal('indices of event %d' % e, ri[e], stack(env, [[e, other[k]] for k in rows], (2,), 'int64'))
    if events and own == sorted(own):
        bv, bi = h.event_to_batch_structure(rv, ri, events)
        env.equal('joined again: values', bv, v)
        env.equal('joined again: indices', bi, i)


@contract(CONTRACTS, [B + 'event_to_batch_structure'], bounded='up to 3 events with up to 2 pulses each')
def to_batch(env):
    """the rows of all events in order of the events; wrong event indices are
    rejected"""
    m = env.mod('data.handler.base')
    h = m.BaseDataHandler.__new__(m.BaseDataHandler)
    h._untracked_data = {'mp_processes': [], 'mp_managers': []}
    env.patch(m, 'time', Obj(sleep=lambda t: None))
    counts = [env.choose('pulses', [0, 1, 2]) for _ in range(env.choose('events', [1, 2, 3]))]
    vals = [[[env.real('q')] for _ in range(c)] for c in counts]
    v = [stack(env, x, (1,), 'float64') for x in vals]
    i = [stack(env, [[e, 7] for _ in range(c)], (2,), 'int64') for e, c in enumerate(counts)]
    if env.flag('wrong event') and sum(counts):
        e = max(k for k, c in enumerate(counts) if c)
        i[e][-1, 0] = e + 1 if env.flag('later') else e - 1
        env.raises('wrong event index', AssertionError, lambda: h.event_to_batch_structure(v, i, len(counts)))
        return
    bv, bi = h.event_to_batch_structure(v, i, len(counts))
    env.equal('values', bv, stack(env, [x for y in vals for x in y], (1,), 'float64'))
    env.equal('indices', bi, stack(env, [[e, 7] for e, c in enumerate(counts) for _ in range(c)], (2,), 'int64'))


# --- the handler made of modules
class Parts:
    """a configured ModuleDataHandler with stand-in modules"""

    def __init__(self, env, which=KINDS):
        self.env = env
        m, self.c = env.mod('data.handler.modular'), env.mod('manager.component')
        env.patch(env.mod('data.handler.base'), 'time', Obj(sleep=lambda t: None))
        lists, self.tensors = tensor_lists(env, which)
        self.result, self.calls, self.mask = {}, [], None
        parts = self

        def make(kind):
            def configure(me, config_data=None, **kw):
                conf = parts.c.Configuration(class_string='stand-in.' + kind, settings=dict(kw, config_data=config_data), logger=NullLog())
                return conf, ({kind + '_tensors': lists[kind]} if kind != 'filter' else {}), {}

            def init(me):
                parts.c.BaseComponent.__init__(me, logger=NullLog())

            def read(method):
                def get(me, source, *a, **k):
                    parts.calls.append((kind, method, source, a, k))
                    return parts.result[kind]
                return get

            def mask(method):
                def get(me, source, tensors, n, batch, *a, **k):
                    parts.calls.append((kind, method, source, a, k))
                    parts.filtered = (tensors, n, list(batch))
                    return parts.mask
                return get

            def write(me, data, frame, *a, **k):
                parts.calls.append((kind, 'write', frame, a, k, list(data)))
            d = {'__init__': init, '_configure': configure}
            if kind == 'filter':
                d.update(get_event_filter_mask_from_hdf=mask('hdf'), get_event_filter_mask_from_frame=mask('frame'))
            else:
                d.update(get_data_from_hdf=read('hdf'), get_data_from_frame=read('frame'), create_data_from_frame=read('create'), write_data_to_frame=write)
            return type('StandIn' + kind, (self.c.BaseComponent,), d)
        self.lists = lists
        base = 'egenerator.data.modules.%s.Mod.Class'
        classes = {base % {'label': 'labels', 'weight': 'weights', 'filter': 'filters'}.get(k, k): make(k) for k in KINDS + ['filter']}
        env.patch(m.misc, 'load_class', lambda s: classes[s])
        self.config = {}
        for k in KINDS + ['filter']:
            self.config[k + '_module'] = 'Mod.Class'
            self.config[k + '_settings'] = {'setting': 'of ' + k}
        self.h = type('Handler', (m.ModuleDataHandler,), {'__del__': lambda me: None})(logger=NullLog())
        self.h.configure(config=deep(self.config))


@contract(CONTRACTS, [M + '_configure_derived_class', M + '_load_modules', B + '_configure'])
def configured(env):
    """a handler lists the tensors of its modules in order: data, label, weight, misc"""
    p = Parts(env)
    env.concrete('tensors', p.h.tensors == p.tensors and p.h.tensors.names == p.tensors.names)
    for k in KINDS + ['filter']:
        mod = getattr(p.h, k + '_module')
        env.concrete('%s module' % k, type(mod).__name__ == 'StandIn' + k and mod.configuration.settings == {'setting': 'of ' + k, 'config_data': None})
        if k != 'filter':
            env.concrete('%s tensors' % k, getattr(p.h, k + '_tensors') == p.lists[k])
    env.concrete('recorded', p.h.configuration.mutable_settings == {'config': p.config} and p.h.configuration.settings == {})
    env.concrete('replaceable', sorted(p.h.configuration.mutable_sub_components) == ['filter_module', 'label_module', 'misc_module', 'weight_module'])
    env.raises('modules are loaded once', ValueError, lambda: p.h._load_modules(p.config))


@contract(CONTRACTS, [M + '_filter_data', B + 'batch_to_event_structure', B + 'event_to_batch_structure'], bounded='up to 3 events with up to 2 pulses each, all filter masks')
def filtering(env):
    """exactly the events that pass are kept, with all their data, renumbered"""
    p = Parts(env)
    counts = [env.choose('pulses', [0, 1, 2]) for _ in range(env.choose('events', [1, 2, 3]))]
    events = [Event(env, i, c) for i, c in enumerate(counts)]
    mask = [env.flag('passes') for _ in events]
    batch = data_of(env, events, p.tensors.names)
    as_list = env.flag('mask is a list')
    n, got = p.h._filter_data(list(mask) if as_list else env.np.array(mask), len(events), batch)
    kept = [e for e, k in zip(events, mask) if k]
    env.equal('number', n, len(kept))
    if kept:
        check_events(env, 'kept', got, p.tensors.names, kept, kept)


def reading(method):
    def read(env):
        """the data of all modules, in the order of the tensors; only events that
        pass the filter; nothing if a module has nothing (unless it has no tensors)"""
        none = env.choose('without tensors', [None, 'weight', 'misc'])
        p = Parts(env, KINDS + ([{'weight': 'no weights', 'misc': 'no misc'}[none]] if none else []))
        events = [Event(env, i, c) for i, c in enumerate([1, 0, 2])]
        names = p.tensors.names
        all_data = dict(zip(names, data_of(env, events, names)))
        mask = [env.flag('passes') for _ in events]
        p.mask = env.np.array(mask) if env.flag('array') else list(mask)
        missing = env.choose('without data', [None] + [k for k in KINDS if k != none])
        wrong = env.choose('wrong number', [None] + [k for k in KINDS if k != none]) if missing is None and (none is None or method == 'hdf') else None
        for k in KINDS:
            p.result[k] = (len(events) + (1 if k == wrong else 0), [all_data[n] for n in p.lists[k].names])
            if k == missing or (k == none and env.flag('nothing given')):
                p.result[k] = (None, None)
        f = {'hdf': p.h.get_data_from_hdf, 'frame': p.h.get_data_from_frame, 'create': p.h.create_data_from_frame}[method]
        source = 'file' if method == 'hdf' else {'the': 'frame'}
        if wrong is not None:
            env.raises('numbers of events disagree', ValueError, lambda: f(source, key='word'))
            return
        n, got = f(source, key='word')
        kept = [e for e, k in zip(events, mask) if k]
        if missing is not None or not kept:
            env.concrete('nothing', n is None and got is None)
        else:
            env.equal('number of events', n, len(kept))
            env.concrete('one entry per tensor', len(got) == len(names))
            check_events(env, 'kept', got, names, kept, kept, absent='none' if method != 'frame' else 'default')
            if method == 'frame':
                for i, t in enumerate(p.tensors.list):
                    if not t.exists:
                        env.concrete('default of ' + t.name, not bool(got[i]) and got[i] is not None)
        env.concrete('modules are asked for the same source', all(c[1] in (method, 'hdf' if method == 'hdf' else 'frame') and c[2] is source and c[3] == () and c[4] == {'key': 'word'}
                                                                  for c in p.calls))
        env.concrete('each module is asked once', sorted(c[0] for c in p.calls) == sorted(KINDS + (['filter'] if missing is None else [])))
        if missing is None:
            t, k, b = p.filtered
            env.concrete('the filter sees all events', t == p.tensors and number(k) == len(events) and len(b) == len(names))
            check_events(env, 'seen by the filter', b, names, events, events)
    return read


for _m, _f in (('hdf', ['get_data_from_hdf', '_get_data_from_hdf']), ('frame', ['get_data_from_frame', '_get_data_from_frame']), ('create', ['create_data_from_frame', '_create_data_from_frame'])):
    contract(CONTRACTS, [B + _f[0], M + _f[1], M + '_get_data', M + '_filter_data', B + '_check_data_structure'], name='reading_' + _m, bounded='3 events, all filter masks')(reading(_m))


@contract(CONTRACTS, [B + '_check_data_structure'])
def structure(env):
    """data that does not have the declared structure is rejected"""
    p = Parts(env)
    events = [Event(env, i, c) for i, c in enumerate([1, 2])]
    names = p.tensors.names
    data = dict(zip(names, data_of(env, events, names)))
    p.mask = [True, True]
    bad = env.choose('broken', ['x_dom rank', 'x_dom size', 'x_parameters size', 'seed size', 'weights rank'])
    k, how = bad.split()
    shape = list(data[k].shape)
    if how == 'rank':
        data[k] = data[k].reshape(shape + [1])
    else:
        shape[1] += 1
        data[k] = env.np.zeros(shape)
    for kind in KINDS:
        p.result[kind] = (2, [data[n] for n in p.lists[kind].names])
    f = env.choose('from', [p.h.get_data_from_hdf, p.h.get_data_from_frame, p.h.create_data_from_frame])
    env.raises('wrong structure', ValueError, lambda: f('file' if f == p.h.get_data_from_hdf else {}))
    for kind in KINDS:
        p.result[kind] = (2, p.result[kind][1][:-1])


@contract(CONTRACTS, [M + '_write_data_to_frame', B + 'write_data_to_frame'])
def writing(env):
    """every module writes its own tensors"""
    p = Parts(env)
    data = [Obj(of=n) for n in p.tensors.names]
    frame = {}
    p.h.write_data_to_frame(data, frame, 'arg', key='word')
    env.concrete('each module once', sorted(c[0] for c in p.calls) == sorted(KINDS))
    for c in p.calls:
        env.concrete('%s writes its tensors' % c[0], c[1] == 'write' and [d.of for d in c[5]] == p.lists[c[0]].names and c[2] is frame and c[3] == ('arg',) and c[4] == {'key': 'word'})


# --- batches of many files
def has_type(x, dtype):
    d = getattr(x, 'dtype', None)
    return d is not None and (getattr(d, 'name', None) == dtype or str(d) == dtype or d == dtype)


class Pipeline:
    """get_batch_generator on stand-in files under a chosen order of execution"""

    def __init__(self, env, files, order=None, switch=None, second=None):
        """files: for every file None (nothing passes the filter), 'missing' or
        the numbers of pulses of its events"""
        self.env, self.m = env, env.mod('data.handler.base')
        m, c = self.m, env.mod('manager.component')
        self.lists, tensors = tensor_lists(env)
        self.names = tensors.names
        count = itertools.count()
        self.files, self.read = {}, []
        for i, f in enumerate(files):
            self.files['file%d' % i] = f if f in (None, 'missing') else [Event(env, next(count), p) for p in f]
        pipe = self
        self.sched = Sched(order, switch, second)

        def get(me, file, *a, **k):
            pipe.read.append((file, a, k))
            evs = pipe.files[file]
            if not evs:
                return None, None
            return len(evs), data_of(env, evs, pipe.names)

        def configure(me, config, config_data):
            return c.Configuration(class_string='stand-in', settings={}, logger=NullLog()), {'tensors': tensors}, {}
        self.h = type('Handler', (m.BaseDataHandler,), {'__del__': lambda me: None, '_get_data_from_hdf': get, '_configure_derived_class': configure})(logger=NullLog())
        self.h.configure(config={})
        env.patch(m, 'multiprocessing', self.sched.module())
        env.patch(m, 'time', Obj(sleep=self.sched.sleep, time=lambda: 0.))
        env.patch(m, 'glob', Obj(glob=lambda pattern: sorted(f for f in pipe.files if f.startswith(pattern.rstrip('*')))))
        import os
        env.patch(m, 'os', Obj(path=Obj(exists=lambda f: pipe.files.get(f) != 'missing', isfile=lambda f: pipe.files.get(f) != 'missing', join=os.path.join)))

    def events(self):
        return [e for f in self.files.values() if f not in (None, 'missing') for e in f]

    def run(self, limit=None, **k):
        """(batches, reason for not ending)"""
        out = []
        try:
            for b in self.h.get_batch_generator('file*', pick_random_files_forever=k.pop('forever', False), **k):
                out.append(b)
                if limit is not None and len(out) == limit:
                    break
        except Stuck as e:
            return out, str(e)
        finally:
            self.sched.close()
        return out, None

    def check(self, batches, size, repetitions, in_order):
        """every event exactly `repetitions` times, in complete batches"""
        env = self.env
        total = len(self.events()) * repetitions
        sizes = [size] * (total // size) + ([total % size] if total % size else [])
        got = [len(b[self.names.index('x_parameters')]) if not hasattr(b[self.names.index('x_parameters')], 'shape') else int(b[self.names.index('x_parameters')].shape[0]) for b in batches]
        env.concrete('complete batches, except for the last', got == sizes, got)
        at = {n: i for i, n in enumerate(self.names)}
        by_id = {e.id: e for e in self.events()}
        seen, wrong, pairs = [], [], {n: ([], []) for n in self.names}
        for k, b in enumerate(batches):
            if not (isinstance(b, tuple) and len(b) == len(self.names)):
                wrong.append('batch %d is not a tuple of all tensors' % k)
                continue
            ids = [number(b[at['x_parameters']][i, 0]) for i in range(got[k])]
            seen += ids
            if not all(i in by_id for i in ids):
                wrong.append('batch %d contains events of no file' % k)
                continue
            evs = [by_id[i] for i in ids]
            for n, want in zip(self.names, data_of(env, evs, self.names)):
                t = self.h.tensors[n]
                have = b[at[n]]
                if not has_type(have, t.dtype):
                    wrong.append('batch %d: type of %s' % (k, n))
                if want is None:
                    if int(have.shape[0]) != got[k]:
                        wrong.append('batch %d: default of %s' % (k, n))
                elif tuple(have.shape) != tuple(want.shape):
                    wrong.append('batch %d: shape of %s' % (k, n))
                elif have.shape[0]:
                    pairs[n][0].append(have)
                    pairs[n][1].append(want)
        env.concrete('batches of all tensors in their types and shapes', not wrong, wrong)
        for n, (have, want) in pairs.items():
            if have:
                env.equal('%s belongs to the events' % n, env.np.concatenate(have, axis=0), env.np.concatenate(want, axis=0), rtol=1e-5, atol=1e-5)
        want = sorted(list(by_id) * repetitions)
        env.concrete('every event exactly %d times' % repetitions, sorted(seen) == want, seen)
        if in_order and repetitions == 1:
            env.concrete('in the order of the files', seen == want)
        elif in_order:
            # the events of some files in their order, repeated in this order
            order, left = [], list(seen)
            while left:
                n = next((i for i in range(1, len(left)) if left[i] <= left[i - 1]), len(left))
                if left[:n] * repetitions != left[:n * repetitions]:
                    break
                order, left = order + left[:n], left[n * repetitions:]
            env.concrete('repeated in the order of the files', order == sorted(by_id), seen)


GEN = [B + 'get_batch_generator', B + 'batch_to_event_structure', B + 'get_data_from_hdf']
BOUND = 'up to 3 files of up to 3 events, batches of up to 4 events; processes change control only at shared objects'


@contract(CONTRACTS, GEN, bounded=BOUND, time=200)
def epochs(env):
    """one pass over the files, whatever the sizes of files and batches"""
    menu = [None, 'missing', [0, 2], [1, 0, 1]]
    files = [env.choose('file', menu) for _ in range(env.choose('files', [0, 1, 2]))]
    if len(files) == 2 and env.flag('and a third'):
        files.append([2])
    size, rep, add = env.choose('batch size', [1, 2, 4]), env.choose('repetitions', [1, 2]), env.choose('further files', [0, 2])
    p = Pipeline(env, files)
    got, stuck = p.run(batch_size=size, num_repetitions=rep, num_add_files=add, sample_randomly=False)
    env.concrete('the batches end', stuck is None, stuck)
    p.check(got, size, rep, in_order=True)
    env.concrete('each file is read once', sorted(f for f, _, _ in p.read) == sorted(f for f, v in p.files.items() if v != 'missing'))


@contract(CONTRACTS, GEN, bounded=BOUND + '; one deviation at any point from six priority orders', time=200, trials=400)
def schedules(env):
    """any of several loading processes may be ahead or behind"""
    files = env.choose('files', [[[1], [2]], [[1, 0], None, [0]], [None, [1], None]])
    order = env.choose('order', [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [0, 3, 1, 2], [2, 3, 0, 1], [1, 3, 2, 0]])
    switch = env.choose('deviation', list(range(0, 90)))
    second = env.int('second', 1, 120) if env.is_concrete else None
    p = Pipeline(env, files, order, switch, second)
    got, stuck = p.run(batch_size=2, num_jobs=2, num_add_files=1, sample_randomly=False)
    env.concrete('the batches end', stuck is None, stuck)
    p.check(got, 2, 1, in_order=False)


@contract(CONTRACTS, GEN, bounded=BOUND, time=100)
def shuffled(env):
    """random order: still every event once per repetition"""
    files = env.choose('files', [[[1], [2, 0]], [[1, 0, 2]], [[0], [1], [1]]])
    p = Pipeline(env, files)
    if not env.is_concrete:
        import random
        rng = random.Random(env.choose('random numbers', list(range(5))))

        def permutation(n):
            x = list(range(int(n))) if not isinstance(n, (list, tuple)) else list(n)
            rng.shuffle(x)
            return x
        env.patch(env.np.random, 'permutation', permutation)
        env.patch(env.np.random, 'shuffle', rng.shuffle)
    size, rep = env.choose('batch size', [1, 2, 4]), env.choose('repetitions', [1, 3])
    got, stuck = p.run(batch_size=size, num_repetitions=rep, num_jobs=env.choose('jobs', [1, 2]), sample_randomly=True, file_capacity=2, batch_capacity=2)
    env.concrete('the batches end', stuck is None, stuck)
    p.check(got, size, rep, in_order=False)


@contract(CONTRACTS, GEN, bounded=BOUND, time=100)
def forever(env):
    """random files again and again: complete batches of intact events"""
    p = Pipeline(env, env.choose('files', [[[1], [2, 0]], [[1, 0, 2]], [None, [1], 'missing']]), switch=env.choose('deviation', [None, 5, 20, 31]))
    if not env.is_concrete:
        import random

        class RandomState:
            def __init__(self, seed):
                self.r = random.Random(seed)

            def choice(self, x):
                return self.r.choice(list(x))
        env.patch(env.np.random, 'RandomState', RandomState)
    size = env.choose('batch size', [1, 2, 3])
    got, stuck = p.run(limit=4, forever=True, batch_size=size, num_jobs=env.choose('jobs', [1, 2]), sample_randomly=False)
    env.concrete('batches never end', stuck is None and len(got) == 4, stuck)
    at = p.names.index('x_parameters')
    by_id = {e.id: e for e in p.events()}
    for k, b in enumerate(got):
        env.concrete('batch %d is complete' % k, int(b[at].shape[0]) == size)
        evs = [by_id[number(b[at][i, 0])] for i in range(int(b[at].shape[0]))]
        for n, want in zip(p.names, data_of(env, evs, p.names)):
            if want is not None:
                env.equal('batch %d: %s belongs to the events' % (k, n), b[p.names.index(n)], want, rtol=1e-5, atol=1e-5)


@contract(CONTRACTS, [B + 'get_data_set_signature', B + 'get_tf_dataset'])
def dataset(env):
    """the data set declares types and shapes of the tensors and generates the
    batches with the given settings"""
    m = env.mod('data.handler.base')
    p = Pipeline(env, [])
    made = []

    class Dataset:
        def prefetch(self, n):
            made.append(n)
            return 'data set'

    def from_generator(generator, output_types=None, output_shapes=None, output_signature=None, **k):
        made.append((generator, output_types, output_shapes))
        return Dataset()
    env.patch(m, 'tf', Obj(data=Obj(Dataset=Obj(from_generator=from_generator)), TensorShape=lambda s: ('shape', s if s is None else tuple(s)),
                           TensorSpec=lambda shape=None, dtype=None: (shape, dtype), float32='float32', float64='float64', bool='bool', int32='int32'))
    want = [(('shape', tuple(t.shape) if t.exists else None), t.dtype) for t in p.h.tensors.list]
    env.concrete('signature', list(p.h.get_data_set_signature()) == want)
    asked = []
    type(p.h).get_batch_generator = lambda me, *a, **k: asked.append((a, k))
    opts = dict(sample_randomly=False, pick_random_files_forever=False, file_capacity=3, batch_capacity=4, num_jobs=6, num_add_files=7, num_repetitions=8, num_splits=None, verbose=True,
                biased_selection_module='selection')
    opts = {k: v for k, v in opts.items() if env.is_concrete or k in ('num_jobs', 'sample_randomly') or env.flag(k)}
    env.concrete('result', p.h.get_tf_dataset('file*', 5, dataset_capacity=9, more='word', **opts) == 'data set')
    env.concrete('types and shapes', list(made[0][1]) == [d for _, d in want] and list(made[0][2]) == [s for s, _ in want] and made[1] == 9)
    made[0][0]()
    defaults = dict(sample_randomly=True, pick_random_files_forever=True, file_capacity=1, batch_capacity=5, num_jobs=1, num_add_files=0, num_repetitions=1, num_splits=None, verbose=False,
                    biased_selection_module=None)
    a, k = asked[0]
    k = dict(k, **dict(zip(('input_data', 'batch_size'), a)))
    env.concrete('generator settings', k == dict(defaults, input_data='file*', batch_size=5, more='word', **{}) | opts, k)


@contract(CONTRACTS, [M + '_update_sub_components', M + '_get_value', M + 'data_tensors', M + 'label_tensors', M + 'weight_tensors', M + 'misc_tensors', B + 'tensors'])
def replaced_modules(env):
    """a handler whose modules were replaced on loading works with the tensors
    and settings of the new ones"""
    p = Parts(env)
    t = env.mod('data.tensor')
    new = env.choose('replaced', [[], ['misc'], ['label'], ['misc', 'weight', 'filter'], ['filter'], ['label', 'misc', 'weight', 'filter']])
    lists = dict(p.lists)
    for k in new:
        lists[k] = t.DataTensorList([t.DataTensor(name='new_%s_%d' % (k, i), shape=[None, 1], tensor_type=k, dtype='float32') for i in range(env.choose('tensors', [0, 2]))]) if k != 'filter' else None

        def configure(me, k=k, **kw):
            return p.c.Configuration(class_string='new.' + k, settings=kw, logger=NullLog()), ({k + '_tensors': lists[k]} if k != 'filter' else {}), {}
        q = type('New' + k, (p.c.BaseComponent,), {'__init__': lambda me: p.c.BaseComponent.__init__(me, logger=NullLog()), '_configure': configure})()
        q.configure(value=env.choose('value', [1, 2]))
        p.h._sub_components[k + '_module'] = q
    if env.flag('unknown'):
        env.raises('no such module', ValueError, lambda: p.h._update_sub_components([k + '_module' for k in new] + [env.choose('name', ['data', 'other_module'])]))
        return
    p.h._update_sub_components([k + '_module' for k in new])
    want = t.DataTensorList(sum([lists[k].list for k in KINDS], []))
    env.concrete('tensors in order', p.h.tensors.names == want.names and p.h.tensors == want)
    for k in KINDS:
        env.concrete('tensors of the module', getattr(p.h, k + '_tensors').names == lists[k].names)
    conf = p.h.configuration
    for k in KINDS + ['filter']:
        mod = p.h._sub_components[k + '_module']
        env.concrete('modules', getattr(p.h, k + '_module') is mod and conf.sub_component_configurations[k + '_module'] == mod.configuration.dict)
        if k in new:
            env.concrete('recorded', conf.config['config'][k + '_settings'] == mod.configuration.config and conf.config['config'][k + '_module'].endswith('New' + k) and conf.mutable_settings['config'] == conf.config['config'])
        else:
            env.concrete('others are kept', conf.config['config'][k + '_settings'] == p.config[k + '_settings'] and conf.config['config'][k + '_module'] == p.config[k + '_module'])


@contract(CONTRACTS, [B + f for f in ('convert_data_to_tensor', 'get_tensor_from_frame', 'check_if_configured', 'get_data_from_hdf', 'get_data_from_frame', 'create_data_from_frame', 'write_data_to_frame')])
def before_configuration(env):
    """a handler that is not configured gives no data"""
    m = env.mod('data.handler.base')
    log = []
    note = lambda n: lambda me, *a, **k: log.append(n) or (1, [None])
    x = type('Handler', (m.BaseDataHandler,), {'__del__': lambda me: None, '_get_data_from_hdf': note('hdf'), '_get_data_from_frame': note('frame'), '_create_data_from_frame': note('create'), '_write_data_to_frame': note('write')})(logger=NullLog())
    f = env.choose('call', [lambda: x.get_data_from_hdf('file'), lambda: x.get_data_from_frame('frame'), lambda: x.create_data_from_frame('frame'), lambda: x.write_data_to_frame([], 'frame'), lambda: x.get_tensor_from_frame('frame')])
    env.raises('not configured', ValueError, f)
    env.concrete('nothing read', log == [])


@contract(CONTRACTS, [B + '_configure', B + '_configure_derived_class', B + '__init__'])
def configuration_data(env):
    """a handler is configured from the files its patterns name, and has to list
    its tensors"""
    m, c, t = env.mod('data.handler.base'), env.mod('manager.component'), env.mod('data.tensor')
    asked, seen = [], []
    env.patch(m, 'glob', Obj(glob=lambda p: asked.append(p) or [p + '/2', p + '/1']))
    tensors = env.choose('tensors', ['list', 'missing', 'no list'])
    config = {'setting': env.choose('setting', [1, 'a'])}

    def configure(me, config, config_data=None):
        seen.append((config, config_data))
        data = {'list': {'tensors': t.DataTensorList([]), 'more': 2}, 'missing': {'data_tensors': t.DataTensorList([])}, 'no list': {'tensors': []}}[tensors]
        return c.Configuration(class_string='a.Handler', settings={}, mutable_settings={'config': config, 'config_data': config_data}, logger=NullLog()), data, {}
    x = type('Handler', (m.BaseDataHandler,), {'__del__': lambda me: None, '_configure_derived_class': configure})(logger=NullLog())
    patterns = env.choose('patterns', [None, 'a', ['a'], ['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e']])
    go = lambda: x._configure(config=config, config_data=patterns)
    if tensors != 'list':
        env.raises('invalid', KeyError if tensors == 'missing' else TypeError, go)
        return
    conf, data, subs = go()
    want = None if patterns is None else [q + e for q in ([patterns] if isinstance(patterns, str) else patterns[:3]) for e in ('/2', '/1')]
    env.concrete('files', seen == [(config, want)] and asked == ([] if patterns is None else [patterns] if isinstance(patterns, str) else patterns[:3]))
    env.concrete('returned', sorted(data) == ['more', 'tensors'] and subs == {} and conf.class_string == 'a.Handler')
    x.__dict__['_is_configured'] = True
    env.raises('only once', ValueError, go)
    env.concrete('not asked again', len(seen) == 1)
