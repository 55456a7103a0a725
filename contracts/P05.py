"""P05: data transformation."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass
CONTRACTS = []
D = 'data.trafo.DataTransformer.'


class Tensors(dict):
    """tensor list stand-in"""

    def __init__(self, tensors):
        dict.__init__(self, {t.name: t for t in tensors})
        self.list = list(tensors)
        self.names = [t.name for t in tensors]

    def get_index(self, n):
        return self.names.index(n)


def tensor(name, shape, log=None, trafo=True, exists=True, reduce=(), batch_axis=0, log_axis=-1):
    return Obj(name=name, shape=shape, trafo_log=log, trafo=trafo, exists=exists, trafo_reduce_axes=reduce, trafo_batch_axis=batch_axis,
               trafo_log_axis=log_axis, dtype='float32')


@contract(CONTRACTS, [D + '_update_online_variance_vars', D + '_perform_update_step'],
          bounded='1 to 3 further events from any state; vectors of any length')
def statistics_step(env):
    """invariant of the running statistics: after any update, mean and M2 are
    the mean and the summed squared deviation of all values seen; it holds for
    the empty state and is preserved from any state"""
    d = subclass(env.mod('data.trafo').DataTransformer, _logger=NullLog())
    k = env.int('entries', 1)
    L = env.np
    rows = env.choose('rows', [1, 2, 3])
    x = env.arr('x', [rows, k], lo=0.)
    i = env.index('i', k)
    log = env.flag('log')
    if env.flag('start'):
        n0, s1, s2 = 0, 0., 0.
        mean, m2 = L.zeros([k]), L.zeros([k])
    else:
        n0 = env.int('n0', 1)
        S1, S2 = env.arr('sum', [k]), env.arr('sumsq', [k])
        mean, m2 = S1 / n0, S2 - S1 * S1 / n0
        s1, s2 = S1[i], S2[i]
    if log:
        # the value of every entry enters as log(1 + x)
        n, mean, m2 = d._perform_update_step(trafo_log=[True, True], data_batch=x, n=n0, mean=mean, M2=m2, dtype=L.float64)
    else:
        n, mean, m2 = d._update_online_variance_vars(data_batch=x, n=n0, mean=mean, M2=m2)
    f = (lambda v: L.log(1. + v)) if log else (lambda v: v)
    t1, t2 = s1, s2
    for r in range(rows):
        t1 = t1 + f(x[r, i])
        t2 = t2 + f(x[r, i]) * f(x[r, i])
    N = n0 + rows
    env.equal('number of events', n, N)
    env.equal('mean', mean[i], t1 / N, rtol=1e-5, atol=1e-6)
    env.equal('summed squared deviation', m2[i], t2 - t1 * t1 / N, rtol=1e-5, atol=1e-5)


@contract(CONTRACTS, [D + '_perform_update_step'], bounded='4 entries, some logarithmic; 1 event from any state')
def statistics_log(env):
    """only the entries declared logarithmic enter as log(1 + x)"""
    d = subclass(env.mod('data.trafo').DataTransformer, _logger=NullLog())
    L = env.np
    log = env.choose('log', [None, [True] * 4, [False, True, False, True], [True, False, False, False], [False] * 4])
    x = env.arr('x', [1, 4], lo=0.)
    x0 = L.array(x)
    n, mean, m2 = d._perform_update_step(trafo_log=log, data_batch=x, n=0, mean=L.zeros([4]), M2=L.zeros([4]), dtype=L.float64)
    for i in range(4):
        env.equal('mean %d' % i, mean[i], L.log(1. + x0[0, i]) if log and log[i] else x0[0, i])
    env.equal('the data are left unchanged', x, x0)


class Handler:
    def __init__(self, tensors, batches):
        self.tensors, self.batches, self.kw, self.used = tensors, batches, None, 0

    def get_batch_generator(self, **kw):
        self.kw = kw
        for b in self.batches:
            self.used += 1
            yield b


@contract(CONTRACTS, [D + '_configure', D + '_perform_update_step', D + '_update_online_variance_vars'],
          bounded='2 batches of 1 and 2 events; tensors of 3 entries, and of 2x2 entries sharing statistics along an axis')
def creation(env):
    """the transformation constants are mean and standard deviation over all
    events of the requested batches, averaged along the declared axes, with one
    in place of a vanishing deviation; only declared tensors are transformed"""
    m = env.mod('data.trafo')
    L = env.np
    d = subclass(m.DataTransformer, is_configured=False, _logger=NullLog())
    env.patch(m, 'Configuration', lambda **kw: Obj(**kw))
    env.patch(m, 'tqdm', lambda x, **k: x)
    a = tensor('a', [-1, 3], log=env.choose('log', [None, [True, False, False], [True] * 3]))
    b = tensor('b', [-1, 2, 2], reduce=env.choose('reduce', [(), (0,), (0, 1)]))
    tl = Tensors([a, tensor('skip', [-1, None, 2], trafo=False), b, tensor('gone', [-1, 1], exists=False)])
    sizes = [1, 2]
    A = [env.arr('a', [n, 3], lo=0.) for n in sizes]
    B = [env.arr('b', [n, 2, 2]) for n in sizes]
    if env.flag('constant entry'):
        for q in A:
            q[:, 2] = 3.
    batches = [(A[i], 'no data', B[i], None) for i in range(2)] + [('more', 'than', 'requested', None)]
    h = Handler(tl, batches)
    nc = env.choose('norm', [1e-6, 1e-3])
    conf, data, sub = d._configure(h, dict(batch_size=7), 2, float_precision='float64', norm_constant=nc)
    env.concrete('all requested batches and no more', h.used == 2 and h.kw == dict(batch_size=7))
    env.concrete('only declared tensors', {k for k in data if k.endswith('_mean') or k.endswith('_std')} == {'a_mean', 'a_std', 'b_mean', 'b_std'})
    env.concrete('constants', data['norm_constant'] == nc and data['tensors'] is tl and sub == {})

    def moments(vals):
        n = len(vals)
        mu = sum(vals) / n
        return mu, L.sqrt(sum((v - mu) * (v - mu) for v in vals) / n)
    for i in range(3):
        f = (lambda v: L.log(1. + v)) if a.trafo_log and a.trafo_log[i] else (lambda v: v)
        mu, sd = moments([f(q[r, i]) for q in A for r in range(len(q))])
        env.equal('mean of entry %d' % i, data['a_mean'][i], mu)
        env.equal('deviation of entry %d' % i, data['a_std'][i], L.where(sd == 0, 1., sd) if not env.is_concrete else (1. if sd < 1e-12 else sd))
    mom = [[moments([q[r, i, j] for q in B for r in range(len(q))]) for j in range(2)] for i in range(2)]
    ax = b.trafo_reduce_axes
    env.concrete('shape of reduced constants', tuple(data['b_mean'].shape) == {(): (2, 2), (0,): (1, 2), (0, 1): (1, 1)}[ax])
    for i in range(2):
        for j in range(2):
            group = [(p, q) for p in range(2) for q in range(2) if (p == i or 0 in ax) and (q == j or 1 in ax)]
            ii, jj = (0 if 0 in ax else i), (0 if 1 in ax else j)
            env.equal('shared mean', data['b_mean'][ii, jj], sum(mom[p][q][0] for p, q in group) / len(group))
            sd = sum(mom[p][q][1] for p, q in group) / len(group)
            env.equal('shared deviation', data['b_std'][ii, jj], L.where(sd == 0, 1., sd))
    for k in ('a_mean', 'a_std', 'b_mean', 'b_std'):
        env.equal('recorded check value', conf.check_values[k], L.mean(data[k]))
    env.concrete('recorded settings', conf.settings == dict(data_iterator_settings=dict(batch_size=7), num_batches=2, float_precision='float64', norm_constant=nc))


LOGS = [None, [True] * 3, [True, False, True], [False, True, False], [False] * 3]


def make(env, log, nc=None):
    m = env.mod('data.trafo')
    t = tensor('x', [-1, 3], log=log)
    std, mean = env.arr('std', [3], lo=0., strict=True), env.arr('mean', [3])
    if env.is_concrete:
        std = std + .2
    if nc is None:
        nc = env.choose('norm_constant', [0., 1e-6, .5])
    d = subclass(m.DataTransformer, is_configured=True, _logger=NullLog(),
                 data={'tensors': Tensors([tensor('other', [-1, 3]), t]), 'x_std': std, 'x_mean': mean, 'norm_constant': nc,
                       'other_std': std * 3., 'other_mean': mean - 2., 'np_float_dtype': env.np.float64, 'tf_float_dtype': env.tf.float64})
    return d, std, mean, nc


@contract(CONTRACTS, [D + 'transform', D + '_check_settings'], bounded='3 entries; batches of any size and any values')
def forward(env):
    """transformed = (log(1+x) or x, minus mean) / (norm constant + deviation),
    entry by entry in both back ends; without bias correction a pure rescaling;
    the argument is not modified and the dtype is kept"""
    L = env.np
    log, bias = env.choose('log', LOGS), env.flag('bias_correction')
    d, std, mean, nc = make(env, log)
    use_tf = env.flag('tensor')
    n = env.int('n', 1)
    dt = env.choose('dtype', ['float32', 'float64'])
    x = env.tensor('x', [n, 3], np_like=not use_tf, dtype=dt, lo=0.)
    x0 = env.ref(x) if use_tf else L.array(x)
    y = d.transform(x, 'x', bias_correction=bias) if not bias or env.flag('explicit') else d.transform(x, 'x')
    i = env.index('i', n)
    Y = env.ref(y)
    for k in range(3):
        v = x0[i, k]
        if bias:
            v = (L.log(1. + v) if log and log[k] else v) - mean[k]
        env.equal('entry %d' % k, Y[i, k], v / (nc + std[k]))
    env.equal('argument unchanged', x, x0)
    env.concrete('dtype is kept', (not env.is_concrete) or str(getattr(y.dtype, 'name', y.dtype)) == dt)
    env.concrete('kind is kept', env.tf.is_tensor(y) == use_tf)


@contract(CONTRACTS, [D + 'inverse_transform', D + '_check_settings'], bounded='3 entries; batches of any size, normalised values up to 60 in the logarithm')
def backward(env):
    """inverse = value * (norm constant + deviation) + mean, exponentiated for
    logarithmic entries"""
    L = env.np
    log, bias = env.choose('log', LOGS), env.flag('bias_correction')
    d, std, mean, nc = make(env, log)
    use_tf = env.flag('tensor')
    n = env.int('n', 1)
    y = env.tensor('y', [n, 3], np_like=not use_tf, dtype='float64', lo=-4., hi=4.)
    i = env.index('i', n)
    y0 = env.ref(y) if use_tf else L.array(y)
    for k in range(3):
        raw = y0[i, k] * (nc + std[k]) + mean[k]
        env.assume(raw <= 50.)
        env.assume(raw >= -50.)
    x = env.ref(d.inverse_transform(y, 'x', bias_correction=bias))
    for k in range(3):
        v = y0[i, k] * (nc + std[k])
        if bias:
            v = v + mean[k]
            v = L.exp(v) - 1. if log and log[k] else v
        env.equal('entry %d' % k, x[i, k], v)
    env.equal('argument unchanged', y, y0)


@contract(CONTRACTS, [D + 'transform', D + 'inverse_transform'], bounded='3 entries; batches of any size, logarithmic values up to exp(50)')
def round_trip(env):
    """transforming and inverting restores every value, in both back ends, with
    and without bias correction"""
    L = env.np
    log, bias = env.choose('log', LOGS), env.flag('bias_correction')
    d, std, mean, nc = make(env, log)
    use_tf = env.flag('tensor')
    n = env.int('n', 1)
    x = env.tensor('x', [n, 3], np_like=not use_tf, dtype='float64', lo=0., hi=1e4)
    x0 = env.ref(x) if use_tf else L.array(x)
    i = env.index('i', n)
    if not env.is_concrete:
        for k in range(3):      # lemma used by the clipped branch
            env.assume(L.log(1. + x0[i, k]) <= 10.)
            env.assume(L.log(1. + x0[i, k]) >= 0.)
    z = env.ref(d.inverse_transform(d.transform(x, 'x', bias_correction=bias), 'x', bias_correction=bias))
    for k in range(3):
        env.equal('restored entry %d' % k, z[i, k], x0[i, k], rtol=1e-5, atol=1e-5)


@contract(CONTRACTS, [D + '_check_settings', D + 'transform', D + 'inverse_transform'])
def misuse(env):
    """an unconfigured transformer, an unknown tensor or a wrong shape is rejected"""
    d, std, mean, nc = make(env, env.choose('log', LOGS[:3]), nc=1e-6)
    x = env.arr('x', [2, 3], lo=0.)
    f = env.choose('direction', [d.transform, d.inverse_transform])
    env.raises('unknown tensor', ValueError, lambda: f(x, 'y'))
    env.raises('wrong shape', ValueError, lambda: f(env.arr('z', [2, 4]), 'x'))
    type(d).is_configured = False
    env.raises('not configured', ValueError, lambda: f(x, 'x'))
