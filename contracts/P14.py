"""P14: superposition of several sources."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass
from contracts.source import Tensors, Proxy
CONTRACTS = []
M, I = 'model.multi_source.base.MultiSource.', 'model.multi_source.independent.IndependentMultiSource.'
KEYS = ['dom_charges', 'dom_charges_variance', 'pulse_pdf', 'dom_cdf_exclusion_sum']


class Params:
    """the parameters of one source, opaque"""

    def __init__(self, of):
        self.of = of


class Bases:
    """base sources under their contract (P13): any positive charges and
    variances, any non negative densities, for every source"""

    def __init__(self, env, n, exclusions, bases=None):
        self.env, self.n = env, n
        self.B, self.N = env.int('events', 1, 4), env.int('pulses', 1, 6)
        t = env.tensor
        dom = [self.B, 86, 60, 1]
        self.values = {'dom_charges': t('charge', [n] + dom, lo=0., strict=True), 'dom_charges_variance': t('variance', [n] + dom, lo=0.), 'pulse_pdf': t('pdf', [n, self.N], lo=0.)}
        if exclusions is True:
            self.values['dom_cdf_exclusion_sum'] = t('excluded', [n] + dom, lo=0.)
        self.R = {k: env.ref(v) for k, v in self.values.items()}
        self.calls = []

    def result(self, i):
        return {k: v[i] for k, v in self.values.items()}

    def multi(self, sources, components, exclusions, parameters):
        env, me = self.env, self
        m = env.mod('model.multi_source.base')
        x = subclass(m.MultiSource)
        if not env.is_concrete:
            pass
        object.__setattr__(x, '_logger', NullLog())
        tensors = Tensors(['x_pulses'] + (['x_time_exclusions'] if exclusions is not False else []), missing=['x_time_exclusions'] if exclusions == 'missing' else [])
        comps = dict(components, data_trafo=Obj(data={'tensors': tensors}))
        x.__dict__.update(_is_configured=True, _untracked_data={'sources': sources, 'parameter_names': ['a', 'b']}, _configuration=None, _data=None, _sub_components=comps)
        x.__dict__['get_source_parameters'] = parameters
        return x


class Many:
    """sources of any number: a mapping of source to base source"""

    def __init__(self, env, n, base):
        self.env, self.n, self.base = env, n, base

    def items(self):
        if self.env.is_concrete:
            return [(Params(i), self.base) for i in range(self.n)]
        from pyvc import seq, sym
        return seq.SSeq(self.n, lambda k: (Params(sym.wrap(k) if not isinstance(k, (int, sym.S)) else k), self.base))

    def values(self):
        return [self.base]


@contract(CONTRACTS, [M + 'get_tensors'])
def superposition(env):
    """for any number of sources: charges and variances add up, the density of a
    pulse is the average of the densities weighted with the charge at its
    module, the same for the excluded part"""
    excl = env.choose('exclusions', [False, 'missing', True])
    n = env.int('sources', 1, 5)
    b = Bases(env, n, excl)
    par = env.tensor('parameters', [b.B, 2])
    ids = [env.ints('pulse_ids_' + k, [b.N], 0, hi) for k, hi in (('event', b.B), ('string', 86), ('dom', 60))]
    ids = env.tf.stack([env.tf.cast(c, 'int32') for c in ids], axis=1) if env.is_concrete else env.tf.stack(ids, axis=1)

    class Base:
        def add_parameter_indexing(self, p):
            return p

        def get_tensors(self, data, is_training, parameter_tensor_name='x_parameters'):
            return b.result(data[parameter_tensor_name].of)
    if env.is_concrete:
        env.patch(env.mod('model.multi_source.base').tf, 'function', lambda **k: lambda f: f)
    x = b.multi(Many(env, n, 'base'), {'base': Base()}, excl, lambda p: Identity())
    out = x.get_tensors({'x_parameters': par, 'x_pulses': env.tensor('x_pulses', [b.N, 2]), 'x_pulses_ids': ids}, is_training=False)
    L, q = env.np, b.R['dom_charges']
    e, s, d = env.index('event', b.B), env.index('string', 86), env.index('dom', 60)
    # split off the first source: there is at least one
    total = lambda v: v[0] + L.sum(v[1:])
    Q = q[:, e, s, d, 0]
    env.equal('charges add up', env.ref(out['dom_charges'])[e, s, d, 0], total(Q))
    env.equal('variances add up', env.ref(out['dom_charges_variance'])[e, s, d, 0], total(b.R['dom_charges_variance'][:, e, s, d, 0]))
    p = env.index('pulse', b.N)
    R = env.ref(ids)
    key = [R[p, j] if not env.is_concrete else int(R[p, j]) for j in range(3)]
    Qp = q[:, key[0], key[1], key[2], 0]
    env.equal('weighted densities', env.ref(out['pulse_pdf'])[p] * (env.ref(out['dom_charges'])[key[0], key[1], key[2], 0] + 1e-6), total(b.R['pulse_pdf'][:, p] * Qp))
    env.concrete("shapes", [len(out[k].shape) for k in KEYS[:3]] == [4, 4, 1] and sorted(out) == sorted(KEYS if excl is True else KEYS[:3]))
    if excl is True:
        env.assume(env.ref(out['dom_charges'])[e, s, d, 0] > 0)
        env.equal('weighted exclusions', env.ref(out['dom_cdf_exclusion_sum'])[e, s, d, 0] * env.ref(out['dom_charges'])[e, s, d, 0], total(b.R['dom_cdf_exclusion_sum'][:, e, s, d, 0] * Q))


class Identity:
    def __getitem__(self, name):
        return name


def stand_in(env, b, log, label, shift):
    """a base source whose prediction tells which source and parameters it was evaluated for"""

    class Base:
        num_parameters = 2

        def add_parameter_indexing(self, p):
            log.append(('indexed', label, p))
            return p

        def get_tensors(self, data, is_training, parameter_tensor_name='x_parameters'):
            log.append(('evaluated', label, data, is_training, parameter_tensor_name))
            p = data[parameter_tensor_name]
            tf = env.tf
            q = tf.broadcast_to(tf.reshape(p[:, 0] + shift, [-1, 1, 1, 1]), [b.B, 86, 60, 1])
            return {'dom_charges': q, 'dom_charges_variance': q * 2., 'pulse_pdf': tf.gather(p[:, 1], data['x_pulses_ids'][:, 0])}
    return Base()


@contract(CONTRACTS, [M + 'get_tensors'], bounded='up to 3 sources', time=90)
def every_source_its_own(env):
    """every source is evaluated with its own base source, its own parameters
    and the data of the batch"""
    sources = env.choose('sources', [{'s1': 'cascade'}, {'noise': 'noise', 'cascade': 'cascade'}, {'s1': 'noise', 's2': 'cascade', 's3': 'noise'}, {'s3': 'track', 's2': 'noise', 's1': 'cascade'}])
    b = Bases(env, 1, False)
    log = []
    if env.is_concrete:
        env.patch(env.mod('model.multi_source.base').tf, 'function', lambda **k: lambda f: f)
    comps = {k: stand_in(env, b, log, k, sh) for k, sh in (('cascade', 0.), ('noise', 10.), ('track', 100.))}
    par = {k: env.tensor('parameters_' + k, [b.B, 2], lo=0.) for k in sources}
    whole = env.tensor('whole', [b.B, 2])
    seen = []

    def parameters(p):
        seen.append(p)
        return par
    x = b.multi(sources, comps, False, parameters)
    ids = [env.ints('pulse_ids_' + k, [b.N], 0, hi) for k, hi in (('event', b.B), ('string', 86), ('dom', 60))]
    ids = env.tf.stack([env.tf.cast(c, 'int32') for c in ids], axis=1) if env.is_concrete else env.tf.stack(ids, axis=1)
    name = env.choose('name', ['x_parameters', 'x_seed'])
    pulses = env.tensor('x_pulses', [b.N, 2])
    batch = {name: whole, 'x_pulses': pulses, 'x_pulses_ids': ids, 'x_dom_charge': 'charge', 'x_time_window': 'window'}
    training = env.flag('training')
    out = x.get_tensors(dict(batch), is_training=training, parameter_tensor_name=name)
    env.concrete('decomposed parameters', len(seen) == 1 and seen[0] is whole)
    calls = [c for c in log if c[0] == 'evaluated']
    env.concrete('every source once', len(calls) == len(sources))
    for k, base in sources.items():
        mine = [c for c in calls if c[2]['x_parameters'] is par[k]]
        env.concrete('own base source', len(mine) == 1 and mine[0][1] == base)
        for _, _, data, tr, pn in mine:
            env.concrete('own parameters', pn == 'x_parameters' and bool(tr) == bool(training))
            env.concrete('data of the batch', all(data[q] is v for q, v in batch.items() if q != 'x_parameters'))
    shift = {'cascade': 0., 'noise': 10., 'track': 100.}
    e, s, d = env.index('event', b.B), env.index('string', 86), env.index('dom', 60)
    p = env.index('pulse', b.N)
    R = env.ref(ids)
    ev = R[p, 0] if not env.is_concrete else int(R[p, 0])
    Q = lambda k, e: env.ref(par[k])[e, 0] + shift[sources[k]]
    env.equal('charge', env.ref(out['dom_charges'])[e, s, d, 0], sum(Q(k, e) for k in sources))
    env.equal('variance', env.ref(out['dom_charges_variance'])[e, s, d, 0], 2. * sum(Q(k, e) for k in sources))
    env.equal('density', env.ref(out['pulse_pdf'])[p] * (sum(Q(k, ev) for k in sources) + 1e-6), sum(Q(k, ev) * env.ref(par[k])[ev, 1] for k in sources))


@contract(CONTRACTS, [M + 'check_source_parameter_creation'], bounded='up to 3 sources')
def checked_parameters(env):
    """the check of the decomposition passes if and only if every source gets as
    many parameters as its base source has"""
    sources = env.choose('sources', [{'s1': 'noise'}, {'cascade': 'a', 'noise': 'noise'}, {'s3': 'a', 's2': 'noise', 's1': 'b'}])
    need = {'a': 3, 'b': 1, 'noise': 2}
    wrong = env.choose('wrong', [None] + sorted(sources))
    by = env.choose('by', [-1, 1]) if wrong else 0
    m = env.mod('model.multi_source.base')
    x = subclass(m.MultiSource)
    log, indexed = NullLog(), []
    object.__setattr__(x, '_logger', log)
    x.__dict__.update(_is_configured=True, _untracked_data={'sources': sources, 'num_parameters': 4, 'parameter_names': list('abcd')}, _configuration=None, _data=None,
                      _sub_components={k: Obj(num_parameters=n, get_name=lambda i: 'the name') for k, n in need.items()})
    x.__dict__['add_parameter_indexing'] = lambda p: indexed.append(p) or p
    x.__dict__['get_source_parameters'] = lambda p: {k: p[:, :1] + env.tf.zeros([1, need[b] + (by if k == wrong else 0)]) for k, b in sources.items()}

    # without a graph (eager mode) there is nothing to follow
    def nodes(t, name):
        raise AttributeError('name')
    x.__dict__['_find_top_nodes'] = nodes
    if wrong:
        env.raises('refused', ValueError, x.check_source_parameter_creation)
    else:
        x.check_source_parameter_creation()
        env.concrete('a tensor of its own parameters', len(indexed) == 1 and list(indexed[0].shape) == [3, 4])


@contract(CONTRACTS, [M + 'get_tensors'])
def unexpected_shapes(env):
    """predictions of an unexpected shape are refused"""
    what = env.choose('tensor', ['dom_charges', 'dom_charges_variance', 'dom_cdf_exclusion_sum', None])
    excl = what == 'dom_cdf_exclusion_sum' or env.flag('exclusions')
    shape = env.choose('shape', [[86, 60, 2], [86, 1, 1], [1, 60, 1], [86, 60, 1, 1]])
    b = Bases(env, 1, excl)
    right = [b.B, 86, 60, 1]
    t = lambda k: env.tensor(k, [b.B] + shape if k == what else right, lo=0., strict=True)
    base = Obj(add_parameter_indexing=lambda p: p, get_tensors=lambda *a, **k: dict({q: t(q) for q in KEYS if q != 'pulse_pdf' and (excl or q != KEYS[3])}, pulse_pdf=env.tensor('pdf', [b.N])))
    if env.is_concrete:
        env.patch(env.mod('model.multi_source.base').tf, 'function', lambda **k: lambda f: f)
    par = env.tensor('parameters', [b.B, 2])
    x = b.multi({'s': 'a'}, {'a': base}, excl, lambda p: {'s': par})
    ids = env.tf.stack([env.tf.cast(env.ints('ids', [b.N], 0, 1), 'int32')] * 3, axis=1) if env.is_concrete else env.tf.stack([env.ints('ids', [b.N], 0, 1)] * 3, axis=1)
    go = lambda: x.get_tensors({'x_parameters': par, 'x_pulses': env.tensor('x_pulses', [b.N, 2]), 'x_pulses_ids': ids}, is_training=False)
    if what is None:
        env.concrete('accepted', 'dom_charges' in go())
    else:
        env.raises('refused', ValueError, go)


def independent(env, sources, names, grow=False):
    m, base = env.mod('model.multi_source.independent'), env.mod('model.multi_source.base')
    seen = []

    class Variable:
        def ref(self):
            return self

    def variables():
        """all variables there are, one more at every call if asked for"""
        if grow or not seen:
            seen.append(Variable())
        return list(seen)
    env.patch(base, 'tf', Proxy(base.tf, compat=Obj(v1=Obj(global_variables=variables))))
    x = subclass(m.IndependentMultiSource)
    object.__setattr__(x, '_logger', NullLog())
    bases = {k: Obj(parameter_names=v, num_parameters=len(v)) for k, v in names.items()}
    x.__dict__.update(_is_configured=False, _untracked_data={}, _configuration=None, _data=None, _sub_components={})
    return x, bases


@contract(CONTRACTS, [I + 'get_parameters_and_mapping', I + 'get_source_parameters', M + '_configure_derived_class'], bounded='up to 4 sources')
def independent_sources(env):
    """the parameters of independent sources are those of the sources with the
    name of the source in front, every one used by exactly one source"""
    sources = env.choose('sources', [{'cascade': 'a'}, {'z': 'a', 'b': 'b'}, {'s2': 'b', 's10': 'a', 's1': 'b'}, {'n': 'none', 'x': 'b', 'm': 'a'}, {'a': 'a', 'd': 'b', 'c': 'none', 'b': 'a'}])
    names = {'a': ['x', 'y', 'time'], 'b': ['energy', 'x'], 'none': []}
    x, bases = independent(env, sources, names)
    trafo = env.choose('trafo', ['the transformer', None])
    given = dict(bases)
    if trafo is None and len(sources) == 2:
        y, _ = independent(env, sources, names, grow=True)
        env.raises('variables that do not belong to the model', ValueError, lambda: y._configure_derived_class(dict(bases), {'sources': sources}, name='the name'))
        x, _ = independent(env, sources, names)
    conf, data, subs = x._configure_derived_class(given, {'sources': sources}, data_trafo=trafo, name='the name')
    U = x._untracked_data
    env.concrete('sub components', {k: v for k, v in subs.items()} == (dict(bases, data_trafo=trafo) if trafo else bases))
    env.concrete('no tracked data', data == {})
    env.concrete('settings', conf.settings == {'config': {'sources': sources}} and conf.mutable_settings == {'name': 'the name'})
    par = U['parameter_names']
    env.concrete('a parameter per source and parameter', sorted(par) == sorted(s + '_' + p for s, b in sources.items() for p in names[b]))
    env.concrete('indices', U['num_parameters'] == len(par) and all(U['parameter_name_dict'][p] == i and U['parameter_index_dict'][i] == p for i, p in enumerate(par)) and len(U['parameter_name_dict']) == len(U['parameter_index_dict']) == len(par))
    env.concrete('sources', U['sources'] == sources and U['name'] == 'the name')
    x.__dict__.update(_is_configured=True, _sub_components=subs)
    B = env.int('events', 1, 5)
    t = env.tensor('parameters', [B, len(par)])
    got = x.get_source_parameters(t)
    env.concrete('all sources', sorted(got) == sorted(sources))
    e = env.index('event', B)
    for s, b in sources.items():
        env.concrete('number of parameters', int(got[s].shape[1]) == len(names[b]))
        for j, p in enumerate(names[b]):
            env.equal('own parameters', env.ref(got[s])[e, j], env.ref(t)[e, par.index(s + '_' + p)])
            env.concrete('index by name', x.get_index(s + '_' + p) == par.index(s + '_' + p) and x.get_name(x.get_index(s + '_' + p)) == s + '_' + p)
