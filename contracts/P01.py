"""P01: data tensor definitions and collections."""
import itertools
from pyvc.con import contract
CONTRACTS = []
T, TL = 'data.tensor.DataTensor.', 'data.tensor.DataTensorList.'

DEFAULTS = dict(exists=True, vector_info=None, trafo=False, trafo_reduce_axes=(), trafo_log=None, trafo_log_axis=-1, trafo_batch_axis=0)


def definition(name='x', **kw):
    return dict(dict(name=name, shape=[-1, 3], tensor_type='data', dtype='float32'), **kw)


# alternatives of every setting: two valid values each
ALT = {
    'name': ['x', 'y'], 'shape': [[-1, 3], [-1, 4, 3]], 'tensor_type': ['data', 'label'], 'dtype': ['float32', 'bool'], 'exists': [True, False],
    'vector_info': [None, {'type': 'index', 'reference': 'x_pulses'}], 'trafo': [False, True], 'trafo_reduce_axes': [(), (1, 2)],
    'trafo_log': [None, [True, False, False]], 'trafo_log_axis': [-1, 1], 'trafo_batch_axis': [0, 1], 'special': [1, 2]}


@contract(CONTRACTS, [T + '__init__', T + '__eq__', T + '__ne__', T + 'to_dict'])
def tensor_definition(env):
    """settings are kept as given; definitions are equal exactly if all settings
    are; missing settings have their defaults"""
    D = env.mod('data.tensor').DataTensor
    keys = [k for k in sorted(ALT) if k not in ('name', 'shape', 'tensor_type', 'dtype')]
    given = env.choose('setting', keys + [None])
    a = definition()
    if given is not None:
        a[given] = env.choose('value', ALT[given])
    ta = D(**a)
    for k, v in dict(DEFAULTS, **a).items():
        if k == 'special':
            continue
        env.concrete('setting %s' % k, getattr(ta, 'type' if k == 'tensor_type' else k) == v)
    env.concrete('further settings', ta.specs == ({'special': a['special']} if 'special' in a else {}))
    v = env.real('v')
    w = env.real('w')
    t1, t2 = D(**dict(a, extra=v)), D(**dict(a, extra=w))
    same = bool(t1 == t2)
    env.prove('equal exactly if the settings are', (v == w) if same else (v != w))
    env.concrete('the negation agrees', bool(t1 != t2) == (not same))
    env.concrete('equal to itself', bool(t1 == t1) and not bool(t1 != t1))
    env.concrete('other kinds of objects differ', not (t1 == 'x') and t1 != 'x' and not (t1 == None))   # noqa
    d = ta.to_dict()
    env.concrete('every setting is listed', sorted(d) == sorted(list(DEFAULTS) + ['name', 'shape', 'type', 'dtype', 'specs']))
    env.concrete('with its value', all(d[k] == getattr(ta, k) for k in d))
    d['shape'].append(5)
    d['specs']['more'] = 1
    env.concrete('the listing is a copy', ta.shape == a['shape'] and 'more' not in ta.specs)


@contract(CONTRACTS, [T + '__eq__', T + '__ne__'])
def tensor_difference(env):
    """definitions that differ in a single setting are different"""
    D = env.mod('data.tensor').DataTensor
    k = env.choose('setting', sorted(ALT))
    i = env.choose('which', [0, 1])
    base = definition()
    if env.flag('others'):
        for q in ALT:
            if q not in ('shape', 'trafo_log_axis'):
                base[q] = ALT[q][1]
    a, b = dict(base, **{k: ALT[k][i]}), dict(base, **{k: ALT[k][1 - i]})
    ta, tb, tc = D(**a), D(**b), D(**a)
    env.concrete('different %s' % k, not (ta == tb) and ta != tb and not (tb == ta))
    env.concrete('same', ta == tc and not (ta != tc))


BAD = [dict(shape=None), dict(trafo_log_axis=1.5), dict(trafo_log_axis=None), dict(trafo_log_axis='0'), dict(tensor_type='dat'), dict(tensor_type=None), dict(tensor_type='Data'),
       dict(dtype=None), dict(dtype=32), dict(dtype='float33'), dict(dtype=float), dict(vector_info={'type': 'idx'}), dict(vector_info={'type': None}),
       dict(trafo_log=True, shape=[-1, None]), dict(trafo_log=False, shape=[-1, None]), dict(trafo_log=True, shape=[None, 3], trafo_log_axis=0),
       dict(trafo_log=True, shape=[-1, 3, None, 4], trafo_log_axis=-2)]


@contract(CONTRACTS, [T + '__init__'])
def contradictions(env):
    """contradicting definitions are rejected"""
    D = env.mod('data.tensor').DataTensor
    bad = env.choose('definition', BAD)
    extra = env.choose('extra', [{}, {'exists': False}, {'trafo': True}, {'special': 3}])
    env.raises('rejected %r' % sorted(bad), ValueError, lambda: D(**definition(**dict(extra, **bad))))


@contract(CONTRACTS, [T + '__init__'], bounded='up to 6 entries')
def logarithm(env):
    """a common logarithm setting applies to every entry along the log axis"""
    D = env.mod('data.tensor').DataTensor
    n = env.choose('entries', [1, 2, 3, 6])
    log = env.choose('log', [True, False])
    ax = env.choose('axis', [-1, 1, 2, -2, 0])
    shape = [-1, 4, 5]
    shape[ax] = n
    t = D(**definition(shape=shape, trafo_log=log, trafo_log_axis=ax))
    env.concrete('one setting per entry', t.trafo_log == [log] * n)
    t = D(**definition(shape=shape, trafo_log=[True] + [log] * (n - 1), trafo_log_axis=ax))
    env.concrete('individual settings are kept', t.trafo_log == [True] + [log] * (n - 1))
    shape[ax] = 0
    env.concrete('no entries', D(**definition(shape=shape, trafo_log=log, trafo_log_axis=ax)).trafo_log == [])
    env.concrete('scalars', D(**definition(shape=[], trafo_log=None, trafo_log_axis=ax)).shape == [])


NAMES = ['x_b', 'x_a', 'x_c', 'X', 'x_10', 'x_9']


def special(i, q):
    return {'special': [i, q], 'a_special': None, 'z_special': {'i': i}, 'other': False}


def several(env, n, start=0):
    D = env.mod('data.tensor').DataTensor
    out = []
    for i in range(n):
        q = (i + start) % 4
        out.append(dict(name=NAMES[i], shape=[-1, 2 + i], tensor_type=['data', 'label', 'weight', 'misc', 'prediction'][(i + start) % 5], dtype=['float32', 'int32', 'float64'][i % 3],
                        exists=q != 1, vector_info={'type': 'value', 'reference': NAMES[0]} if q == 2 else None, trafo=q == 0,
                        trafo_log=[None, [True, False], True, False][q] if i != 0 else None, trafo_reduce_axes=[i], **(special(i, q) if q == 3 else {})))
    return out, [D(**d) for d in out]


LIST = [TL + f for f in ('__init__', '__eq__', '__ne__', '__getitem__', 'get_index', 'get_name')]


@contract(CONTRACTS, LIST, bounded='up to 4 tensors in any order')
def lookup(env):
    """names, indices and attribute listings agree for any order of definition"""
    m = env.mod('data.tensor')
    n = env.choose('tensors', [0, 1, 2, 3, 4])
    perm = env.choose('order', list(itertools.permutations(range(n)))[:12])
    defs, ts = several(env, n)
    given = [ts[i] for i in perm]
    L = m.DataTensorList(given if not env.flag('as collection') else m.DataTensorList(given))
    env.concrete('all tensors', L.len == n and len(L.list) == n and sorted(L.names) == sorted(t.name for t in ts))
    for i in range(n):
        name = L.get_name(i)
        t = L.list[i]
        env.concrete('name of index %d' % i, name == L.names[i] == t.name and L.get_index(name) == i and L[name] is t)
        env.concrete('attributes of index %d' % i, L.shapes[i] == t.shape and L.types[i] == t.type and L.exists[i] == t.exists)
        env.concrete('settings of index %d' % i, t == [x for x in ts if x.name == name][0])
    for attr in (L.names, L.shapes, L.types, L.exists):
        env.concrete('one entry per tensor', len(attr) == n)
    env.concrete('independent of the order of definition', L == m.DataTensorList(ts) and not (L != m.DataTensorList(ts)))
    env.concrete('the given list is left as it was', [t.name for t in given] == [NAMES[i] for i in perm])
    for t in given:
        t.name, t.shape = 'changed', None
    env.concrete('later changes of the given tensors have no effect', all(L.list[i].name == L.names[i] and L.list[i].shape is not None for i in range(n)))
    env.raises('unknown names', KeyError, lambda: L['unknown'])
    env.raises('unknown names have no index', KeyError, lambda: L.get_index('x_'))
    env.raises('unknown indices', KeyError, lambda: L.get_name(n))


@contract(CONTRACTS, [TL + '__init__'], bounded='up to 4 tensors')
def duplicates(env):
    """names are unique"""
    m = env.mod('data.tensor')
    n = env.choose('tensors', [2, 3, 4])
    defs, ts = several(env, n)
    i = env.choose('first', list(range(n)))
    j = env.choose('second', [q for q in range(n) if q != i])
    ts[j].name = ts[i].name
    env.raises('duplicate names', ValueError, lambda: m.DataTensorList(ts))
    env.raises('duplicate names of serialised tensors', ValueError, lambda: m.DataTensorList([t.to_dict() for t in ts]))


@contract(CONTRACTS, [TL + '__eq__', TL + '__ne__', T + '__eq__'], bounded='up to 4 tensors, one setting of one tensor differs')
def difference(env):
    """collections are equal exactly if all tensors agree"""
    m = env.mod('data.tensor')
    n = env.choose('tensors', [1, 2, 4])
    defs, ts = several(env, n, start=1)
    A = m.DataTensorList(ts)
    B = m.DataTensorList(ts[::-1])
    env.concrete('same tensors', A == B and not (A != B))
    which = env.choose('which', list(range(n)))
    k = env.choose('setting', ['name', 'shape', 'type', 'dtype', 'exists', 'vector_info', 'trafo', 'trafo_reduce_axes', 'trafo_log', 'trafo_log_axis', 'trafo_batch_axis', 'specs'])
    new = {'name': 'other', 'shape': [7], 'type': 'other', 'dtype': 'int64', 'exists': not ts[which].exists, 'vector_info': {'type': 'index', 'reference': 'q'},
           'trafo': not ts[which].trafo, 'trafo_reduce_axes': [9], 'trafo_log': [True] * 7, 'trafo_log_axis': 5, 'trafo_batch_axis': 7, 'specs': {'q': 1}}[k]
    setattr(ts[which], k, new)
    C = m.DataTensorList(ts)
    env.concrete('one %s differs' % k, A != C and not (A == C) and not (C == A))
    if n > 1:
        D = m.DataTensorList(ts[:which] + ts[which + 1:])
        env.concrete('a tensor is missing', D != C and not (D == C) and not (C == D))
    env.concrete('other kinds of objects differ', A != ts and not (A == None))    # noqa


@contract(CONTRACTS, [TL + 'serialize', TL + 'deserialize', TL + '__init__', T + 'to_dict', T + '__init__'], bounded='up to 4 tensors')
def save_and_restore(env):
    """saving and restoring yields an equal collection"""
    m = env.mod('data.tensor')
    n = env.choose('tensors', [0, 1, 2, 4])
    start = env.choose('start', [0, 1, 2, 3])
    defs, ts = several(env, n, start)
    A = m.DataTensorList(ts[::-1] if env.flag('reversed') else ts)
    s = A.serialize()
    env.concrete('one record per tensor, in index order', [r['name'] for r in s] == A.names)
    B = A.deserialize(s)
    env.concrete('restored', A == B and B == A and B.names == A.names)
    env.concrete('the record is left as it was', s == A.serialize())
    C = m.DataTensorList(s)
    env.concrete('restored by the constructor', C == A)
    for i, t in enumerate(B.list):
        d = [x for x in defs if x['name'] == t.name][0]
        env.concrete('further settings of tensor %d' % i, t.specs == {k: v for k, v in d.items() if k in ('special', 'a_special', 'z_special', 'other')})
    for r in s:
        r['shape'].append(11)
    env.concrete('the record is a copy', A == B)
