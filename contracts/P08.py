"""P08: likelihoods."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass
CONTRACTS = []
D = 'loss.default.DefaultLossModule.'


class Tensors:
    """data tensor list stand-in"""

    def __init__(self, exist):
        self.names = sorted(exist)
        self.list = [Obj(name=n, exists=exist[n]) for n in self.names]

    def get_index(self, n):
        return self.names.index(n)


class Batch:
    """a batch of events with predictions"""

    def __init__(self, env, mask=None, time=None):
        self.env, self.L = env, env.tf
        env.finite()
        B, S, M = self.dims = env.int('events', 1, 5), env.int('strings', 1, 5), env.int('modules', 1, 5)
        P = self.P = env.int('pulses', 0, 9)
        t = lambda name, shape, **k: env.tensor(name, shape, dtype='float64', **k)
        self.dom = t('charge', [B, S, M, 1], lo=0.)
        self.pulses = t('pulses', [P, 3], lo=0., strict=True)
        ids = [env.ints('ids%d' % q, [P], 0, d) for q, d in enumerate(self.dims)]
        self.ids_q = ids
        self.ids = env.tf.stack(ids, axis=1)
        self.data = {'x_dom_charge': self.dom, 'x_pulses': self.pulses, 'x_pulses_ids': self.ids}
        self.res = {'pulse_pdf': t('pdf', [P], lo=0., strict=True), 'pulse_quantile_pdf': t('qpdf', [P], lo=0., strict=True),
                    'dom_charges': t('mu', [B, S, M, 1], lo=0., strict=True), 'dom_charges_log_pdf_values': t('logp', [B, S, M, 1]),
                    'dom_charges_variance': t('var', [B, S, M, 1], lo=0.01, strict=True)}
        exist = {'x_dom_charge': True, 'x_pulses': True, 'x_pulses_ids': True}
        self.mask = None
        if mask is None:
            mask = env.choose('exclusions', ['not listed', 'do not exist', 'exist'])
        if mask != 'not listed':
            exist['x_dom_exclusions'] = mask == 'exist'
            self.data['x_dom_exclusions'] = None
        if mask == 'exist':
            m = env.bools('valid', [B, S, M, 1])
            self.data['x_dom_exclusions'] = m
            self.mask = m[..., 0]
        self.tensors = Tensors(exist)
        # as mathematical quantities
        self.n, self.mu = self.dom[..., 0], self.res['dom_charges'][..., 0]
        self.logp, self.var = self.res['dom_charges_log_pdf_values'][..., 0], self.res['dom_charges_variance'][..., 0]
        self.q, self.quant = self.pulses[:, 0], self.pulses[:, 2]

    def keep(self, x):
        """a term per module, without the excluded ones"""
        return x if self.mask is None else self.L.where(self.mask, x, self.L.zeros_like(x))

    def at_dom(self, u, e, s, m):
        """sum of the pulse terms u over the pulses of one module of one event"""
        L, i = self.L, self.ids_q
        own = L.logical_and(L.logical_and(i[0] == e, i[1] == s), i[2] == m)
        return L.reduce_sum(L.where(own, u, L.zeros_like(u)))


def module(env, name, norm=False, **config):
    config = dict(config, loss_function_name=name, float_precision='float64', add_normalization_term=norm)
    m = subclass(env.mod('loss.default').DefaultLossModule, configuration=Obj(config={'config': config}), untracked_data={}, _logger=NullLog())
    m.untracked_data['loss_function'] = getattr(m, name)
    return m


def fac(L, x):
    return L.math.lgamma(L.maximum(x + 1., 2. + 0. * x))


def nothing(b):
    return None


def log_nb(env, x, mu, alpha):
    """the density under contract P06; independently evaluated in concrete runs"""
    L = env.tf
    if not env.is_concrete:
        return env.mod('utils.basis_functions').tf_log_negative_binomial(x, mu, alpha)
    k = 1. / alpha
    return L.math.lgamma(x + k) - L.math.lgamma(k) + k * (L.math.log(k) - L.math.log(k + mu)) + x * (L.math.log(mu) - L.math.log(k + mu))


def check(env, b, m, dom=None, pulse=None, event=None):
    """the loss terms of every aggregation are those of the likelihood with the
    given term per module, pulse and event"""
    L = env.tf
    kw = dict(data_batch_dict=b.data, result_tensors=b.res, tensors=b.tensors, model=None)
    zero = env.ref(0. * b.dom[0, 0, 0, 0])
    total = lambda x: zero if x is None else L.reduce_sum(x)
    want = total(dom) + total(pulse) + total(event)
    terms = m.get_loss(reduce_to_scalar=False, **kw)
    got = zero
    for x in terms:
        got = got + L.reduce_sum(x)
    env.equal('sum of the loss terms', got, want)
    env.equal('scalar loss', m.get_loss(**kw), want)
    s = m.get_loss(reduce_to_scalar=False, sort_loss_terms=True, **kw)
    env.concrete('three sorted groups', len(s) == 3)
    env.equal('no batch level term', s[0], zero)
    e, i, j = (env.index('e', b.dims[0]), env.index('i', b.dims[1]), env.index('j', b.dims[2]))
    env.equal('event level terms', s[1], 0. * b.dom[:, 0, 0, 0] if event is None else event)
    at = zero if dom is None else dom[e, i, j]
    if pulse is not None:
        at = at + b.at_dom(pulse, e, i, j)
    env.equal('module level terms', s[2] - L.zeros_like(b.n), s[2])
    env.equal('module level term', s[2][e, i, j], at)
    env.equal('sorted terms sum to the loss', L.reduce_sum(s[0]) + L.reduce_sum(s[1]) + L.reduce_sum(s[2]), want)


GET = [D + 'get_loss', D + 'loss_function']


@contract(CONTRACTS, GET + [D + 'unbinned_extended_pulse_llh', D + 'log_faculty'], time=200)
def extended(env):
    """Poisson term per module and density term per pulse"""
    b, L = Batch(env), env.tf
    norm = env.flag('norm')
    m = module(env, 'unbinned_extended_pulse_llh', norm)
    dom = b.mu - b.n * L.math.log(b.mu + 1e-7)
    pulse = -b.q * L.math.log(b.res['pulse_pdf'] + 1e-7)
    if norm:
        dom, pulse = dom + fac(L, b.n), pulse + fac(L, b.q)
    check(env, b, m, b.keep(dom), pulse)


@contract(CONTRACTS, GET + [D + 'unbinned_pulse_time_llh', D + 'log_faculty'], time=200)
def time_only(env):
    """density term per pulse"""
    b, L = Batch(env), env.tf
    norm = env.flag('norm')
    m = module(env, 'unbinned_pulse_time_llh', norm)
    pulse = -b.q * L.math.log(b.res['pulse_pdf'] + 1e-7)
    check(env, b, m, None, pulse + fac(L, b.q) if norm else pulse)


@contract(CONTRACTS, GET + [D + 'unbinned_pulse_and_dom_charge_pdf', D + 'log_faculty'], time=200)
def pulse_and_charge(env):
    """charge density term per module and time density term per pulse"""
    b, L = Batch(env), env.tf
    norm = env.flag('norm')
    m = module(env, 'unbinned_pulse_and_dom_charge_pdf', norm)
    dom, pulse = -b.logp, -b.q * L.math.log(b.res['pulse_pdf'] + 1e-7)
    if norm:
        dom, pulse = dom + fac(L, b.n), pulse + fac(L, b.q)
    check(env, b, m, b.keep(dom), pulse)


@contract(CONTRACTS, GET + [D + 'unbinned_charge_quantile_pdf'], time=200)
def charge_quantile(env):
    """density term of every pulse within the charge quantile limits"""
    b, L = Batch(env), env.tf
    lo, hi = [env.between(n, 0., 1.) if env.flag('use ' + n) else None for n in ('low', 'high')]
    m = module(env, 'unbinned_charge_quantile_pdf', env.flag('norm'), min_charge_quantile=lo, max_charge_quantile=hi)
    pulse = -L.math.log(b.res['pulse_quantile_pdf'] + 1e-7)
    zero = L.zeros_like(pulse)
    if lo is not None:
        pulse = L.where(b.quant >= lo, pulse, zero)
    if hi is not None:
        pulse = L.where(b.quant <= hi, pulse, zero)
    check(env, b, m, None, pulse)


@contract(CONTRACTS, GET + [D + 'dom_and_event_charge_pdf'], time=200)
def dom_and_event(env):
    """charge density per module and Gaussian charge density per event"""
    b, L = Batch(env), env.tf
    if b.mask is not None:
        # the event charge has no spread if every module is excluded
        m0 = b.mask[:, 0, 0]
        b.mask = L.logical_or(b.mask, L.ones_like(b.n) > 0.5) if env.is_concrete and not bool(L.reduce_all(m0)) else b.mask
        b.data['x_dom_exclusions'] = b.mask[..., None]
    m = module(env, 'dom_and_event_charge_pdf', env.flag('norm'))
    s = lambda x: L.reduce_sum(b.keep(x), axis=[1, 2])
    sd = L.sqrt(s(b.var))
    z = (s(b.n) - s(b.mu)) / sd
    event = 0.5 * z * z + L.math.log(sd) + 0.5 * env.np.log(2. * env.np.pi)
    check(env, b, m, b.keep(-b.logp), None, event)


@contract(CONTRACTS, GET + [D + 'negative_binomial_charge_pdf'], time=200)
def negative_binomial_dom(env):
    """negative binomial charge density per module"""
    b, L = Batch(env), env.tf
    m = module(env, 'negative_binomial_charge_pdf', env.flag('norm'))
    alpha = L.maximum((b.var - b.mu) / (b.mu * b.mu + 5e-5), 5e-5 + 0. * b.mu)
    check(env, b, m, b.keep(-log_nb(env, b.n, b.mu, alpha)))


@contract(CONTRACTS, GET + [D + 'negative_binomial_event_charge_pdf'], time=200)
def negative_binomial_event(env):
    """negative binomial density of the summed charge per event"""
    b, L = Batch(env), env.tf
    if b.mask is not None and env.is_concrete:
        b.mask = L.logical_or(b.mask, L.range(int(b.dims[2])) == 0)
        b.data['x_dom_exclusions'] = b.mask[..., None]
    m = module(env, 'negative_binomial_event_charge_pdf', env.flag('norm'))
    s = lambda x: L.reduce_sum(b.keep(x), axis=[1, 2])
    n, mu, var = s(b.n), s(b.mu), s(b.var)
    alpha = L.maximum((var - mu) / (mu * mu), 5e-5 + 0. * mu)
    check(env, b, m, None, None, -log_nb(env, n, mu, alpha))


@contract(CONTRACTS, GET + [D + 'normalized_dom_charge_pdf'], time=200)
def normalised_dom(env):
    """log of the fraction of the event charge (of the modules that are not excluded)
    expected at each module"""
    b, L = Batch(env), env.tf
    m = module(env, 'normalized_dom_charge_pdf', env.flag('norm'))
    mu = b.keep(b.mu)
    total = L.reduce_sum(mu, axis=[1, 2], keepdims=True)
    frac = L.math.divide_no_nan(mu, total)
    check(env, b, m, b.keep(-b.n * L.math.log(frac + 5e-5)))


FUNCS = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh', 'unbinned_pulse_and_dom_charge_pdf', 'unbinned_charge_quantile_pdf',
         'dom_and_event_charge_pdf', 'negative_binomial_charge_pdf', 'negative_binomial_event_charge_pdf', 'normalized_dom_charge_pdf']


@contract(CONTRACTS, GET, time=200)
def options(env):
    """normalisation by the total charge; incompatible options; time windows
    need a model that deals with them"""
    b, L = Batch(env, 'not listed'), env.tf
    name = env.choose('function', FUNCS)
    m = module(env, name, min_charge_quantile=None, max_charge_quantile=None)
    kw = dict(data_batch_dict=b.data, result_tensors=b.res, tensors=b.tensors, model=None)
    n = L.reduce_sum(b.q) + 5160. * b.dims[0]
    env.equal('normalised by the number of terms', m.get_loss(normalize_by_total_charge=True, **kw) * n, m.get_loss(**kw))
    env.raises('sorting is not possible for a scalar', ValueError, lambda: m.get_loss(sort_loss_terms=True, reduce_to_scalar=True, **kw))
    ex = env.flag('time exclusions exist')
    names = {k: True for k in b.tensors.names}
    names['x_time_exclusions'] = ex
    kw['tensors'] = Tensors(names)
    if ex:
        env.raises('the model must deal with time exclusions', AssertionError, lambda: m.get_loss(**kw))
        b.res['dom_cdf_exclusion_sum'] = None
    env.equal('time exclusions leave the terms as they are', m.get_loss(**kw), m.get_loss(**dict(kw, tensors=b.tensors)))


class Part:
    """a loss module of a combination: the sorted groups sum to its loss"""

    def __init__(self, env, i, dims, form):
        self.env, self.form, self.calls = env, form, []
        B, S, M = dims
        t = lambda n, shape: env.tensor(n + str(i), shape, dtype='float64')
        self.s, self.e, self.d = t('scalar', []), t('event', [B]), t('dom', [B, S, M])

    def get_loss(self, reduce_to_scalar=True, sort_loss_terms=False, **kw):
        self.calls.append(kw)
        if self.form == 'list':
            terms = [self.s, self.e, self.d]
        else:
            terms = [self.s, self.e, self.d] if sort_loss_terms else [self.d, self.s, self.e]
        if reduce_to_scalar:
            return sum(self.env.tf.reduce_sum(x) for x in terms)
        return terms


@contract(CONTRACTS, ['loss.multi_loss.MultiLossModule.get_loss'], bounded='1 to 4 combined losses (all batches)')
def combination(env):
    """a combined loss is the sum of its parts, for every aggregation; every
    part is computed from the same data and options"""
    L = env.tf
    B, S, M = dims = env.int('events', 1, 5), env.int('strings', 1, 5), env.int('modules', 1, 5)
    n = env.choose('parts', [1, 2, 3, 4])
    parts = [Part(env, i, dims, 'list') for i in range(n)]
    m = subclass(env.mod('loss.multi_loss').MultiLossModule, sub_components={'loss_modules_%04d' % i: p for i, p in enumerate(parts)}, _logger=NullLog())
    kw = dict(data_batch_dict='data', result_tensors='res', tensors='list', model='model', parameter_tensor_name='x_other', normalize_by_total_charge=False)
    want = sum(L.reduce_sum(p.s) + L.reduce_sum(p.e) + L.reduce_sum(p.d) for p in parts)
    env.equal('scalar loss', m.get_loss(**kw), want)
    terms = m.get_loss(reduce_to_scalar=False, **kw)
    env.equal('sum of the loss terms', sum(L.reduce_sum(x) for x in terms), want)
    s = m.get_loss(reduce_to_scalar=False, sort_loss_terms=True, **kw)
    env.concrete('three sorted groups', len(s) == 3)
    env.equal('batch level', s[0], sum(p.s for p in parts))
    env.equal('event level', s[1], sum(p.e for p in parts))
    env.equal('module level', s[2], sum(p.d for p in parts))
    for p in parts:
        env.concrete('every part sees the data and options once per evaluation', len(p.calls) == 3 and all(c == kw for c in p.calls))


@contract(CONTRACTS, ['loss.multi_loss.MultiLossModule._configure'])
def combination_parts(env):
    """every configured loss is one part of the combination"""
    n = env.choose('parts', [1, 2, 3, 11])
    parts = [Obj(name=i) for i in range(n)]
    m = subclass(env.mod('loss.multi_loss').MultiLossModule, _logger=NullLog())
    cfg, data, sub = m._configure(loss_modules=parts)
    env.concrete('the parts in order', [sub[k].name for k in sorted(sub)] == list(range(n)))
    env.concrete('no further data', not data)


class Params:
    """parameter tensor with names"""

    def __init__(self, t, names):
        self.t, self.names = t, names

    def get_index(self, n):
        return {k: i for i, k in enumerate(self.names)}[n]

    def add_parameter_indexing(self, t):
        p = Params(t, self.names)
        p.params = {n: t[:, i] for i, n in enumerate(self.names)}
        return p

    def __getitem__(self, k):
        return self.t[k]


@contract(CONTRACTS, ['loss.snowstorm.SnowstormPriorLossModule.' + f for f in ('_configure', 'get_loss', 'uniform_log_prior_loss', 'sigmas')],
          bounded='up to 3 uniform parameters; 0, 1, 3 or 24 Fourier modes (any values, any number of events)')
def snowstorm(env):
    """Gaussian prior on every Fourier mode; no penalty for uniform parameters
    within their bounds and a continuous, growing one outside"""
    L = env.tf
    n_modes = env.choose('modes', [0, 1, 3, None])
    lead = env.flag('leading')
    cfg = {'float_precision': 'float32'}
    if n_modes is not None:
        cfg['sigmas'] = [0.3 + 0.1 * i for i in range(n_modes)]
        bounds = {'Scattering': [-1., 2.], 'DOMEfficiency': [-2., 1.]}
        cfg['uniform_parameters'] = bounds
    m = subclass(env.mod('loss.snowstorm').SnowstormPriorLossModule, untracked_data={}, _logger=NullLog())
    m._configure(cfg)
    if n_modes is None:
        n_modes, bounds = 24, m.untracked_data['uniform_parameters']
        env.concrete('default modes', len(m.sigmas) == 24 and len(bounds) == 6)
        env.concrete('default bounds', bounds['Absorption'] == [0.9, 1.1] and bounds['HoleIceForward_Unified_01'] == [-0.2, 0.2])
    sigmas = list(m.sigmas)
    modes = ['IceWavePlusModes_%02d' % i for i in range(n_modes)]
    names = (['energy'] if lead else []) + (list(bounds) + modes if env.flag('modes last') else modes + list(bounds))
    B = env.int('events', 1, 5)
    x = env.tensor('x', [B, len(names)], lo=0.8 if len(sigmas) == 24 else -3., hi=1.3 if len(sigmas) == 24 else 3.)
    X = env.ref(x)
    model = Params(x, names)
    dom = env.tensor('charge', [B, 2, 3, 1], lo=0.)
    kw = dict(data_batch_dict={'x_other': x, 'x_dom_charge': dom}, result_tensors=None, tensors=None, model=model, parameter_tensor_name='x_other')
    per_event = 0. * X[:, 0]
    F = env.np if env.is_concrete else L
    for k, (lo, hi) in bounds.items():
        v = X[:, names.index(k)]
        up = F.exp(((v - hi) / (hi - lo) + 1.) * 10.) - env.np.exp(10.)
        dn = F.exp(((lo - v) / (hi - lo) + 1.) * 10.) - env.np.exp(10.)
        per_event = per_event + F.where(v > hi, up, 0. * v) + F.where(v < lo, dn, 0. * v)
    for k, sg in zip(modes, sigmas):
        v = X[:, names.index(k)]
        per_event = per_event + 0.5 * (v / sg) * (v / sg) + env.np.log(sg) + 0.5 * env.np.log(2. * env.np.pi)
    want = F.sum(per_event) if env.is_concrete else L.reduce_sum(per_event)
    tol = dict(rtol=2e-3, atol=1e-2)
    env.equal('scalar loss', m.get_loss(**kw), want, **tol)
    total = 0.
    for t in m.get_loss(reduce_to_scalar=False, **kw):
        total = total + L.reduce_sum(t)
    env.equal('sum of the loss terms', total, want, **tol)
    if env.flag('sort'):
        s = m.get_loss(reduce_to_scalar=False, sort_loss_terms=True, **kw)
        i = env.index('i', B)
        env.equal('event level', s[1][i], per_event[i], **tol)
        env.equal('no batch level term', s[0], 0. * s[0])
        env.equal('no module level term', s[2], 0. * env.ref(dom)[..., 0])
