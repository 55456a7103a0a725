"""source models for P13, P14 and P20: the code under contract with an
arbitrary network, data transformer and detector"""
from contracts.common import Obj, NullLog, subclass


class Proxy:
    def __init__(self, target, **kw):
        self.__dict__.update(kw)
        self.target_ = target

    def __getattr__(self, k):
        return getattr(self.target_, k)


class Tensors:
    """the data tensor list"""

    def __init__(self, names, missing=(), logs=None):
        self.names = list(names)
        self.list = [Obj(name=n, exists=n not in missing, trafo_log=logs) for n in self.names]

    def get_index(self, n):
        return self.names.index(n)

    def __getitem__(self, n):
        return self.list[self.get_index(n)]


class Trafo:
    """a data transformer under its own contract (P05): any affine map per parameter"""

    def __init__(self, env, k, tensors, name):
        self.a, self.c, self.k, self.env, self.name = [env.pos('scale') for _ in range(k)], [env.real('shift') for _ in range(k)], k, env, name
        self.mean, self.std = [env.real('mean') for _ in range(k)], [env.pos('std') for _ in range(k)]
        L = env.np
        self.data = {'tensors': tensors, name + '_mean': L.array(self.mean), name + '_std': L.array(self.std), 'norm_constant': env.pos('norm_constant')}

    def transform(self, data, tensor_name):
        if tensor_name != self.name:
            raise KeyError(tensor_name)
        f = lambda v: self.env.tf.constant([float(x) for x in v], dtype='float32') if self.env.is_concrete else self.env.np.array(v)
        return data * f(self.a) + f(self.c)

    def fwd(self, x, i):
        return x * self.a[i] + self.c[i]


class Net:
    """a network layer: any function of its input"""

    def __init__(self, env, lead, channels, log):
        self.env, self.lead, self.channels, self.log = env, lead, channels, log

    def __call__(self, x, is_training, keep_prob):
        self.input, self.is_training = x, is_training
        self.out = self.env.tensor('network', list(self.lead) + [self.channels], lo=-4., hi=4.) if self.env.is_concrete else self.env.tensor('network', list(self.lead) + [self.channels])
        return [self.env.tensor('hidden', list(self.lead) + [2]), self.out]


class Setup:
    """a configured source model. The asserts of the code (loud refusals) are
    taken to hold: what they assert is a precondition."""

    def __init__(self, env, module, cls, config, name='x_parameters', exclusions=False, logs=None, windows=None):
        self.env = env
        m = self.m = env.mod(module)
        self.B, self.N = env.int('events', 1), env.int('pulses', 1)
        self.nets, self.weight_shapes = [], []
        noop = lambda *a, **k: None
        if not env.is_concrete:
            tf = m.tf
            env.patch(m, 'tf', Proxy(tf, Assert=noop, print=noop, debugging=Proxy(tf.debugging, Assert=noop)))
        self.declared = []

        def layer(**k):
            self.declared.append(k)
            net = Net(env, [self.B] + k['input_shape'][1:-1] if len(k['input_shape']) == 4 else [self.N], (k['num_filters_list'] if 'num_filters_list' in k else k['fc_sizes'])[-1], None)
            self.nets.append(net)
            return net
        env.patch(m, 'tfs', Obj(ConvNdLayers=layer, FCLayers=layer))
        env.patch(m, 'new_weights', lambda shape, stddev=1., name='w': self.weights(shape))
        D = m.detector
        self.xyz, self.rate, self.eff = env.arr('coordinates', [86, 60, 3]), env.arr('noise_rate', [86, 60], lo=0.), env.arr('efficiency', [86, 60], lo=0.)
        f32 = lambda x: x.astype('float32') if env.is_concrete else x
        env.patch(m, 'detector', Proxy(D, x_coords=f32(self.xyz), dom_noise_rates=self.rate, rel_dom_eff=f32(self.eff)))
        x = self.model = subclass(getattr(m, cls))
        object.__setattr__(x, '_logger', NullLog())
        x.__dict__.update(_is_configured=False, _untracked_data={}, _configuration=None, _data=None, _sub_components={})
        _, data, subs = x._configure_derived_class(config, data_trafo='the transformer')
        names = x.parameter_names
        self.names, k = names, len(names)
        env.concrete('parameters are indexed by name', x.num_parameters == k and [x._untracked_data['parameter_name_dict'][n] for n in names] == list(range(k)) and subs == {'data_trafo': 'the transformer'})
        tn = ['x_pulses', 'x_pulses_ids', 'x_parameters', name] + (['x_time_exclusions'] if exclusions is not False else [])
        self.tensors = Tensors(sorted(set(tn)), missing=['x_time_exclusions'] if exclusions == 'missing' else [], logs=logs)
        self.trafo = Trafo(env, k, self.tensors, name)
        x.__dict__.update(_is_configured=True, _configuration=Obj(config={'config': config}), _sub_components={'data_trafo': self.trafo})
        self.excl = exclusions is True
        self.par = env.tensor('parameters', [self.B, k])
        self.R = env.ref(self.par)
        self.pulses = env.tensor('x_pulses', [self.N, 3], **(dict(lo=-2000., hi=2000.) if env.is_concrete else {}))
        self.ids = self.make_ids('pulse_ids', self.N)
        self.batch = {name: self.par, 'x_pulses': self.pulses, 'x_pulses_ids': self.ids, 'x_dom_charge': env.tensor('x_dom_charge', [self.B, 86, 60, 1], lo=0.), 'x_time_window': self.interval('x_time_window', self.B, 1.)}
        self.name = name
        if self.excl:
            self.M = windows or env.int('windows', 1)
            self.windows = self.disjoint('x_time_exclusions', self.M) if env.is_concrete else self.interval('x_time_exclusions', self.M, 0.)
            self.wids = self.make_ids('window_ids', self.M)
            self.batch.update(x_time_exclusions=self.windows, x_time_exclusions_ids=self.wids)

    def interval(self, name, n, least):
        env = self.env
        a = env.tensor(name + '_start', [n], **(dict(lo=-2000., hi=2000.) if env.is_concrete else {}))
        l = env.tensor(name + '_length', [n], lo=least, **(dict(hi=3000.) if env.is_concrete else {}))
        return env.tf.stack([a, a + l], axis=1)

    def disjoint(self, name, n):
        """runs: windows which do not overlap, in any order (what the asserts of the code demand)"""
        import numpy as np
        env, step = self.env, 8000. / max(1, n)
        a, l = env.ref(env.tensor(name + '_start', [n], lo=0., hi=.5)), env.ref(env.tensor(name + '_length', [n], lo=0., hi=.5))
        slot = np.argsort(env.ref(env.tensor(name + '_order', [n])))
        return env.tf.constant(np.stack([-3000. + step * (slot + a), -3000. + step * (slot + a + l)], axis=1).reshape(-1, 2), dtype='float32')

    def weights(self, shape):
        self.w = self.env.tensor('weights', list(shape))
        self.weight_shapes.append(list(shape))
        return self.w

    def make_ids(self, name, n):
        env = self.env
        if env.is_concrete:     # pulses and windows meet in two modules
            import numpy as np
            pick = env.ref(env.ints(name + '_module', [n], 0, 2)).astype(int).reshape(-1)
            cols = [env.ref(env.ints(name + '_event', [n], 0, min(self.B, 2))).reshape(-1)] + [np.array(self.modules())[pick, j] for j in range(2)]
            return env.tf.constant(np.stack(cols, axis=1).reshape(-1, 3).astype('int32'))
        cols = [env.ints(name + '_' + k, [n], 0, hi) for k, hi in (('event', self.B), ('string', 86), ('dom', 60))]
        return env.tf.stack(cols, axis=1)

    def modules(self):
        if not hasattr(self, 'some'):
            self.some = [(self.env.int('string %d' % j, 0, 86), self.env.int('dom %d' % j, 0, 60)) for j in range(2)]
        return self.some

    def stand_in_angle(self):
        """angles.get_angle replaced by its contract (P07): the angle between two vectors, here a number per pair"""
        env, setup = self.env, self

        class Angle:
            calls = []

            def get_angle(self, v1, v2):
                env.concrete('vectors', v1.shape[-1] == 3 and v2.shape[-1] == 3)
                a = env.tensor('angle', [setup.B, 86, 60])
                self.calls.append((v1, v2, a))
                return a

            def check(self, got, key, direction, displacement):
                env.concrete('one angle', len(self.calls) == 1)
                v1, v2, a = self.calls[0]
                env.equal('angle', got, env.ref(a)[key], atol=1e-3)
                for j in range(3):
                    V = [env.ref(env.tf.broadcast_to(v, [setup.B, 86, 60, 3]))[key + (j,)] for v in (v1, v2)]
                    env.equal('angle between the direction and ...', V[0], direction[j], atol=1e-4)
                    env.equal('... the displacement', V[1], displacement[j], atol=1e-4)
        a = Angle()
        env.patch(self.m, 'angles', a)
        return a

    def stand_in_cdf(self):
        """the cumulative distribution of the asymmetric Gaussian replaced by
        its contract (P06): in proofs an arbitrary function of its arguments"""
        env, bf = self.env, self.env.mod('utils.basis_functions')
        if env.is_concrete:
            return bf.asymmetric_gauss_cdf
        from pyvc import sym, tensor
        f = lambda *a: sym.rfun('cdf', *a)
        env.patch(self.m, 'basis_functions', Proxy(bf, tf_asymmetric_gauss_cdf=lambda x, mu, sigma, r: tensor.ew(f, x, mu, sigma, r)))
        return lambda *a: tensor.ew(f, *a)

    def run(self, training=None):
        t = self.env.flag('training') if training is None else training
        self.out = self.model.get_tensors(dict(self.batch), is_training=t, parameter_tensor_name=self.name)
        return self.out

    def dom(self):
        """an arbitrary event and module"""
        e = self.env
        if e.is_concrete and e.int('a module of pulses', 0, 4):
            return (e.index('event', min(self.B, 2)),) + tuple(self.modules()[e.int('module', 0, 2)])
        return e.index('event', self.B), e.index('string', 86), e.index('dom', 60)

    def pulse(self):
        """an arbitrary pulse, its event and module"""
        p = self.env.index('pulse', self.N)
        R = self.env.ref(self.ids)
        return p, tuple(R[p, j] for j in range(3)) if not self.env.is_concrete else tuple(int(R[p, j]) for j in range(3))


def cascade_config(**kw):
    c = dict(add_opening_angle=True, add_dom_coordinates=True, num_local_vars=1, filter_size_list=[1], num_filters_list=[6, 10], use_dropout_list=False, use_batch_norm_list=False, activation_list='elu',
             use_residual_list=False, method_list='locally_connected', keep_prob=None, estimate_charge_distribution='negative_binomial', num_latent_models=2, scale_charge=True,
             scale_charge_by_relative_dom_efficiency=True, scale_charge_by_global_dom_efficiency=False)
    c.update(kw)
    n = {True: 3, 'negative_binomial': 2, False: 1}[c['estimate_charge_distribution']] + 4 * c['num_latent_models']
    c['num_filters_list'] = [6, n]
    return c


def systematics_config(**kw):
    c = cascade_config(**kw)
    c['num_filters_list_2'], c['num_filters_list'] = c['num_filters_list'], [6, 4]
    for k in ('filter_size_list', 'use_dropout_list', 'use_batch_norm_list', 'activation_list', 'use_residual_list', 'method_list'):
        c[k + '_2'] = c[k]
    c.setdefault('add_anisotropy_angle', True)
    return c


def segment_config(**kw):
    return cascade_config(**kw)


def quantile_config(**kw):
    c = cascade_config(**kw)
    n = c['num_filters_list'][-1] - 4 * c['num_latent_models']
    c['num_filters_list'] = [6, n + 5]
    c.update(fc_num_filters_list=[6, 4 * c['num_latent_models']], fc_use_dropout_list=False, fc_activation_list='elu', fc_use_batch_norm_list=False, fc_use_residual_list=False)
    c.setdefault('add_predicted_charge_to_latent_vars', True)
    return c
