"""P21: goodness of fit from simulated events."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass, Names
CONTRACTS = []
FQ = 'manager.reconstruction.modules.fit_quality.GoodnessOfFit.'
NAMES = ['x_pulses', 'x_parameters', 'x_dom_charge', 'x_time_window', 'x_pulses_ids']


@contract(CONTRACTS, [FQ + 'compute_p_value'])
def p_value(env):
    """one sided: the fraction of simulated events with a loss at least that of
    the data; two sided: twice the smaller of both fractions"""
    L = env.np
    x = subclass(env.mod('manager.reconstruction.modules.fit_quality').GoodnessOfFit)
    n = env.int('n', 1)
    s, d = env.arr('simulated', [n]), env.real('data')
    s0, d0 = s, d
    if env.is_concrete:
        s0 = s.copy()
        if env.flag('data equals a sample'):
            d = d0 = s0[env.index('which', n)]
    p1, p2 = x.compute_p_value(s, d)
    above, below = L.sum(L.where(s0 >= d0, 1., 0.)), L.sum(L.where(s0 < d0, 1., 0.))
    env.equal('fraction at or above the data', p1 * n, above)
    env.equal('the rest is below', p1 * n + below, n)
    env.prove('not above twice either side', (p2 * n <= 2. * below + 1e-9) & (p2 * n <= 2. * (n - below) + 1e-9))
    env.prove('twice the smaller side', (p2 * n >= 2. * below - 1e-9) | (p2 * n >= 2. * (n - below) - 1e-9))


class Rng:
    """random numbers: any values of the requested shape"""

    def __init__(self, env):
        self.env, self.calls = env, []

    def uniform(self, low=0., high=1., size=None):
        shape = list(size) if isinstance(size, (tuple, list)) else [size]
        u = self.env.tensor('u%d' % len(self.calls), shape, np_like=True, lo=low, hi=high, strict=True, dtype='float64')
        self.calls.append((low, high, u))
        return u * 1.


@contract(CONTRACTS, [FQ + 'sample_event_pulses'],
          bounded='up to 2 modules at selected positions with photo-electrons (runs: up to 40 modules anywhere), up to 3 mixture components; any number of photo-electrons')
def pulses(env):
    """the pulses of a module carry its sampled charge and follow the predicted
    mixture: component by the cumulative weights, time by its quantile function"""
    m = env.mod('manager.reconstruction.modules.fit_quality')
    L = env.np
    x = subclass(m.GoodnessOfFit)
    M = env.choose('components', [1, 3])
    quant = env.flag('charge quantiles')
    if env.is_concrete:
        k = env.choose('modules', [0, 1, 2, 40])
        so = sorted({(env.index('string', 86), env.index('om', 60)) for _ in range(k)})
    else:
        so = env.choose('hit modules', [[], [(85, 59)], [(0, 0), (13, 7)], [(77, 3), (77, 59)]])
    cnt = [env.int('number of photo-electrons', 1, 9) if env.is_concrete else env.int('number of photo-electrons', 1) for _ in so]
    q = env.np.zeros([86, 60, 1], dtype='int64')
    for (s, o), n in zip(so, cnt):
        q[s, o, 0] = n
    w = env.arr('weights', [86, 60, M], lo=1e-3, hi=2., strict=True)
    if env.is_concrete:
        w = w / L.sum(w, axis=-1, keepdims=True)
    cum = L.cumsum(w, axis=-1)
    cum[..., -1] = 1.00000001
    mu, sigma = env.arr('mu', [86, 60, M]), env.arr('sigma', [86, 60, M], lo=0.1, strict=True)
    r = env.arr('r', [86, 60, M], lo=0.1, strict=True)
    t0 = env.real('source time')
    rng = Rng(env)
    ppf = []

    def quantile(x, mu, sigma, r):
        out = env.arr('quantile%d' % len(ppf), [x.shape[0]])
        ppf.append((x, mu, sigma, r, out * 1.))
        return out
    env.patch(m.basis_functions, 'asymmetric_gauss_ppf', quantile)
    P, I = x.sample_event_pulses(rng=rng, dom_charges=q, cum_scale=cum, source_time=t0, latent_mu=mu, latent_sigma=sigma, latent_r=r, add_charge_quantiles=quant)
    env.concrete('features', len(P.shape) == 2 and P.shape[1] == (3 if quant else 2) and I.shape[1] == 3)
    ch = [u for lo, hi, u in rng.calls if len(u.shape) == 1]
    un = [u for lo, hi, u in rng.calls if len(u.shape) == 2]
    env.concrete('draws per module', len(ch) == len(un) == len(ppf) == len(so))
    off = 0
    for (s, o), n, c, u, (X, MU, SI, R, Q) in zip(so, cnt, ch, un, ppf):
        i = env.index('pulse', n)
        for a, v in enumerate((0, s, o)):
            env.equal('id %d' % a, I[off + i, a], v)
        # the quantile function of the chosen mixture component
        env.equal('second random number', X[i], u[i, 1])
        for k in range(M):
            here = u[i, 0] <= cum[s, o, k]
            if k:
                here = here & (u[i, 0] > cum[s, o, k - 1])
            for nm, g, v in (('mu', MU, mu), ('sigma', SI, sigma), ('r', R, r)):
                env.equal('%s of component %d' % (nm, k), L.where(here, g[i], 0.), L.where(here, v[s, o, k], 0.))
        times = Q * 1000. + t0
        p = L.argsort(times)
        env.equal('time', P[off + i, 1], times[p][i])
        charges = (c * (n / L.sum(c)))[p]
        env.equal('charge', P[off + i, 0], charges[i])
        if quant:
            env.equal('quantile', P[off + i, 2], (L.cumsum(charges) / L.sum(charges))[i])
        if env.is_concrete:
            env.equal('total charge', L.sum(P[off:off + n, 0]), n)
            env.concrete('in time order', bool(L.all(L.diff(P[off:off + n, 1]) >= 0)))
        off = off + n
    env.prove('number of pulses', P.shape[0] == off)


class Graph:
    """a result of a compiled function"""

    def __init__(self, v):
        self.v = v

    def numpy(self):
        return self.v


def trafo_of(env, k):
    from contracts.P16 import Trafo
    return Trafo(env, k)


def goodness(env, per_dom, cov_key):
    """every simulated event is drawn from the prediction for its hypothesis,
    refitted from it and scored on its own charges and pulses; the data are
    scored at the fitted parameters; p-values compare these losses"""
    m = env.mod('manager.reconstruction.modules.fit_quality')
    L = env.np
    env.long_ranges()
    K = 2
    N = env.int('samples', 1, 4) if env.is_concrete else env.int('samples', 1)
    fit = [True, env.flag('second parameter fitted')]
    in_trafo, refit, norm = [env.flag(s) for s in ('minimize_in_trafo_space', 'reconstruct samples', 'normalise by charge')]
    logs = [env.flag('logarithmic'), True] if cov_key else [False, False]
    nf = sum(fit)
    trafo = trafo_of(env, K)
    trafo.data['tensors']['x_parameters'].trafo_log = logs
    # weights of an arbitrary (known) reconstruction and an arbitrary loss
    wr = [[env.real('reco weight') for _ in range(4)] for _ in range(nf)]
    wl = [env.real('loss weight') for _ in range(6)]
    wd = env.arr('module weights', [86, 60])
    s0, o0 = env.index('s0', 86), env.index('o0', 60)
    Q = env.ints('sampled charges', [N, 86, 60, 1], lo=0, hi=20, np_like=True)
    mod_par = env.arr('draws', [N, K], lo=-0.5, hi=3.)
    pred = {'dom_charges': env.arr('mu', [N, 86, 60, 1], lo=0.1, strict=True)}
    pred['dom_charges_variance'] = pred['dom_charges'] + env.arr('excess', [N, 86, 60, 1], lo=0.01, strict=True)
    for n in ('scale', 'mu', 'sigma', 'r'):
        pred['latent_var_' + n] = env.arr(n, [N, 86, 60, 2], lo=0.1, hi=0.4, strict=True)
    seen = {}

    class R:
        def __init__(self, seed):
            seen['seed'] = seed

        def multivariate_normal(self, mean, cov, size=None):
            seen['normal'] = (mean * 1., cov, size)
            return mod_par * 1.

        def negative_binomial(self, n, p, size=None):
            seen['binomial'] = (n, p, size)
            return Q * 1

    env.patch(m.np, 'random', Obj(RandomState=R))
    for f in ('cov', 'median'):
        env.patch(m.np, f, lambda x, **k: seen.setdefault(f, x))

    def pulses(rng=None, dom_charges=None, cum_scale=None, source_time=None, latent_mu=None, latent_sigma=None, latent_r=None, add_charge_quantiles=False):
        a = dom_charges[s0, o0, 0] + 2. * cum_scale[s0, o0, 0] + 3. * latent_mu[s0, o0, 1] + 5. * latent_sigma[s0, o0, 0] + 7. * latent_r[s0, o0, 1] + source_time
        return L.stack([L.stack([a * 1., a * 2.])]), L.stack([L.stack([dom_charges[s0, o0, 0], dom_charges[s0, o0, 0], dom_charges[s0, o0, 0]])])

    def feats(batch, seed):
        out = [batch[0][0, 0] * 1., batch[2][0, s0, o0, 0] * 1., batch[4][0, 1] * 1., seed[0, K - 1] * 1.]
        env.concrete('other inputs are those of the data', batch[3] is data[3])
        return out

    def reconstruct(data_batch, loss_module, loss_and_gradients_function=None, fit_paramater_list=None, minimize_in_trafo_space=None, seed=None, parameter_tensor_name=None, **kw):
        seen['reco'] = (loss_module, loss_and_gradients_function, fit_paramater_list, minimize_in_trafo_space, parameter_tensor_name, kw)
        f = feats(data_batch, env.np.array(seed) if env.is_concrete else seed)
        return L.stack([L.stack([sum(a * b for a, b in zip(f, wr[i])) for i in range(nf)])]), 'object'

    def score(par, f):
        v = sum(a * b for a, b in zip(f, wl)) + par[0] * wl[4] + par[nf - 1] * wl[5]
        return v

    def loss(parameters_trafo=None, data_batch=None, seed=None):
        env.concrete('fitted parameters are passed on', parameters_trafo.shape[1] == nf)
        v = score([parameters_trafo[0, i] for i in range(nf)], feats(data_batch, env.np.array(seed) if env.is_concrete else seed))
        if per_dom:
            return [Graph(v * 1.), Graph(L.stack([v * 2.])), Graph(L.stack([wd * v]))]
        return Graph(v * 1.) if data_batch is not data else v * 1.

    def settings(name, val):
        def get(**k):
            seen[name] = k
            return val
        return get
    t_pulses = env.arr('data pulses', [5, 2])
    data = (t_pulses, env.arr('p', [1, K]), env.ints('data charges', [1, 86, 60, 1], lo=0, hi=9, np_like=True), 'window', env.ints('data ids', [5, 3], lo=0, hi=9, np_like=True))
    mgr = Obj(data_trafo=trafo, data_handler=Obj(tensors=Names(NAMES), get_data_set_signature=lambda: 'sig',
                                                 data_module=Obj(configuration=Obj(config={'add_charge_quantiles': False}))),
              models=[Obj(get_index=lambda n: {'time': 1}[n])],
              get_model_tensors_function=settings('tensors', lambda h: (seen.__setitem__('hyp', h * 1.), {k: Graph(v * 1.) for k, v in pred.items()})[1]),
              get_parameter_loss_function=settings('loss', loss), get_loss_and_gradients_function=settings('grad', 'gradients'), reconstruct_events=reconstruct)
    trafo.data['tensors']['x_parameters'].dtype = 'float64'

    class C:
        def get(self, name, s):
            return None

        def add(self, f, s):
            seen.setdefault('added', []).append((f, s))
    i, c = env.index('event', N), env.index('column', K)
    over = {'sample_event_pulses': lambda self, **k: pulses(**k)}
    if env.is_concrete and env.int('p-values of the code', 0, 2):
        p_value = lambda s, d: L.sum(L.where(s >= d, 1., 0.)) / N
    else:
        # compute_p_value is replaced by its contract (above): some function of
        # the simulated losses and that of the data
        over['compute_p_value'] = lambda self, s, d: (s[i] * 3. + d, s[i] * 5. - d)
        p_value = lambda s, d: s[i] * 3. + d
    G = type('UnderContract', (m.GoodnessOfFit,), over)
    x = G(mgr, 'the loss', C(), fit, 'reco', covariance_key=cov_key, minimize_in_trafo_space=in_trafo, scipy_optimizer_settings={'method': 'BFGS'}, num_samples=N,
          reconstruct_samples=refit, add_per_dom_calculation=per_dom, normalize_by_total_charge=norm, random_seed=7)
    for w in ('loss', 'grad'):
        k = seen[w]
        env.concrete('%s function is configured like the fit' % w, k['loss_module'] == 'the loss' and list(k['fit_paramater_list']) == fit and
                     k['minimize_in_trafo_space'] == in_trafo and k['parameter_tensor_name'] == 'x_parameters')
    k = seen['loss']
    env.concrete('loss terms as needed', k['normalize_by_total_charge'] is False and k['reduce_to_scalar'] == (not per_dom) and k['sort_loss_terms'] == per_dom)
    best, best_t = env.arr('best', [1, K], lo=-0.5), env.arr('best_trafo', [1, nf])
    cov = env.arr('covariance', [K, K])
    res = x.execute(data, {'reco': {'result': best, 'result_trafo': best_t}, 'cov': {'cov_sand': cov}})
    # hypotheses
    hyp = seen['hyp']
    if cov_key is None:
        env.equal('hypothesis is the best fit', hyp[i, c], best[0, c])
    else:
        mean, cv, size = seen['normal']
        env.concrete('drawn from the estimated covariance', cv is cov)
        for j in range(K):
            env.equal('mean %d' % j, mean[j], L.log(1. + best[0, j]) if logs[j] else best[0, j])
            env.equal('hypothesis %d' % j, hyp[i, j], L.exp(mod_par[i, j]) - 1. if logs[j] else mod_par[i, j])
    n_, p_, size = seen['binomial']
    mu, var = pred['dom_charges'][i, s0, o0, 0], pred['dom_charges_variance'][i, s0, o0, 0]
    env.equal('charges: success probability', p_[i, s0, o0, 0] * var, mu)
    env.equal('charges: number of successes', n_[i, s0, o0, 0] * (var - mu + 1e-6), mu * mu)
    # losses
    cum0 = pred['latent_var_scale'][:, s0, o0, 0]
    q0 = Q[:, s0, o0, 0] * 1.
    fp = q0 + 2. * cum0 + 3. * pred['latent_var_mu'][:, s0, o0, 1] + 5. * pred['latent_var_sigma'][:, s0, o0, 0] + 7. * pred['latent_var_r'][:, s0, o0, 1] + hyp[:, 1]
    f = [fp, q0, q0, hyp[:, K - 1]]
    if refit:
        par = [sum(a * b for a, b in zip(f, wr[j])) for j in range(nf)]
        env.concrete('refitted like the data', seen['reco'][:2] == ('the loss', 'gradients') and list(seen['reco'][2]) == fit and seen['reco'][3] == in_trafo and
                     seen['reco'][4] == 'x_parameters' and seen['reco'][5] == {'method': 'BFGS'})
    else:
        par = [trafo.fwd(hyp[:, j], j) if in_trafo else hyp[:, j] for j in range(nf)]
    Ls = score(par, f)
    d0 = data[2][0, s0, o0, 0] * 1.
    Ld = score([best_t[0, j] for j in range(nf)], [data[0][0, 0], d0, data[4][0, 1] * 1., best[0, K - 1]])
    qs, qd = L.sum(L.sum(L.sum(Q * 1., axis=3), axis=2), axis=1) + 1., L.sum(data[2] * 1.) + 1.
    tot = (L.sum(wd) + 3.) if per_dom else 1.
    Es, Ed = tot * Ls, tot * Ld
    if norm:
        Es, Ed = Es / qs, Ed / qd
    env.equal('loss of the data', res['loss_data_fit'], Ed)
    env.equal('p-value of the event', res['event_p_value_1sided'], p_value(Es, Ed))
    if per_dom:
        ws = wd[s0, o0]
        Ms, Md = ws * Ls, ws * Ld
        if norm:
            Ms, Md = Ms / qs, Md / qd
        env.equal('p-value of a module', res['dom_p_value1'][s0, o0], p_value(Ms, Md))
    if refit:
        for j in range(K):
            want = par[j] if j < nf else None
            if want is None:
                want = hyp[:, j]
            elif in_trafo:
                want = trafo.inv(want, j)
            env.equal('reconstructed samples %d' % j, res['sample_recos'][i, j], want[i])
            env.equal('bias %d' % j, res['sample_reco_bias'][j] * N, L.sum(hyp[:, j] - res['sample_recos'][:, j]))


for _per_dom in (False, True):
    for _cov in (None, 'cov'):
        def _c(env, per_dom=_per_dom, cov_key=_cov):
            return goodness(env, per_dom, cov_key)
        _c.__doc__ = goodness.__doc__
        contract(CONTRACTS, [FQ + 'execute', FQ + 'sample_num_pe', FQ + '__init__', FQ + 'compute_p_value', 'manager.reconstruction.modules.utils.trafo.get_reco_result_batch',
                      'utils.basis_functions.sample_from_negative_binomial'], time=100,
          bounded='2 parameters; any number of simulated events and any values',
                 name='goodness%s%s' % ('_per_module' if _per_dom else '', '_sampled_hypotheses' if _cov else ''))(_c)
