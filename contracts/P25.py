"""P25: posterior samples and angular uncertainties."""
from pyvc.con import contract
from contracts.common import Obj, subclass, Names
from contracts.P16 import Cache, Trafo, NAME
CONTRACTS = []
MC = 'manager.reconstruction.modules.mcmc.MarkovChainMonteCarlo.'
CU = 'manager.reconstruction.modules.opening_angle.CircularizedAngularUncertainty.'
SM = 'manager.source.SourceManager.'


class Graph:
    """result of a compiled function"""

    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


def signature(m, k):
    return (m.tf.TensorSpec(shape=[None, k], dtype=m.tf.float64), m.tf.TensorSpec(shape=[None, 2], dtype=m.tf.float64))


@contract(CONTRACTS, [MC + '__init__', MC + 'execute'], bounded='up to 3 chains and 3 samples of 7 parameters; every choice of accepted samples')
def reported_samples(env):
    """every chain starts at the best fit (in the space it is run in); the
    reported samples are the accepted ones with their log probability"""
    m = env.mod('manager.reconstruction.modules.mcmc')
    L = env.np
    k, chains, num = 7, env.choose('chains', [1, 3]), env.choose('samples', [1, 2])
    in_trafo, hmc = env.flag('in_trafo'), env.flag('trace with step sizes')
    trafo = Trafo(env, k)
    trafo.data[NAME + '_std'] = L.array([env.pos('std') for _ in range(k)])
    acc = [[env.flag('accepted') for _ in range(chains)] for _ in range(num)]
    step = env.arr('step', [num, chains, k])
    logp = env.arr('log_prob', [num, chains])
    sizes = env.arr('step sizes', [num, 1, k])
    loss, seen, sett, gets = Obj(), [], [], []
    batch = (env.tensor('data', [2, k], dtype='float64'), env.tensor('data2', [2, 2], dtype='float64'))

    def run(**kw):
        seen.append({n: v for n, v in kw.items() if n not in ('initial_position', 'data_batch')})
        d = kw.get('data_batch', ())
        env.concrete('sampled for the data', len(d) == 2 and [list(t.shape)[1] for t in d] == [k, 2] and (env.is_concrete or all(a is b for a, b in zip(d, batch))))
        trace = (env.tf.constant(acc), env.tf.constant(logp)) + ((env.tf.constant(sizes),) if hmc else ())
        return kw['initial_position'][None] + step, trace

    def get_loss(**kw):
        sett.append(kw)
        return loss
    mgr = Obj(data_trafo=trafo, data_handler=Obj(get_data_set_signature=lambda: signature(m, k), tensors=Names([NAME])), run_mcmc_on_events=run, get_parameter_loss_function=get_loss)
    env.patch(m, 'print', lambda *a, **kw: None)
    x = m.MarkovChainMonteCarlo(mgr, 'loss', Cache(), [True] * k, 'x_seed', 'reco', minimize_in_trafo_space=in_trafo, parameter_tensor_name=NAME, mcmc_num_chains=chains,
                                mcmc_num_results=num, mcmc_num_burnin_steps=5, mcmc_num_steps_between_results=2, mcmc_method='Method')
    env.concrete('the loss of the fit', len(sett) == 1 and sett[0]['loss_module'] == 'loss' and list(sett[0]['fit_paramater_list']) == [True] * k and
                 sett[0]['minimize_in_trafo_space'] == in_trafo and sett[0]['seed'] == 'x_seed' and sett[0]['parameter_tensor_name'] == NAME)
    p = env.arr('best fit', [1, k])
    p0 = p * 1.
    pt = L.array([[trafo.fwd(p0[0, i], i) for i in range(k)]])
    out = x.execute(batch, {'reco': dict(result=p, result_trafo=pt * 1.), 'other': {}})
    s = seen[-1]
    env.concrete('chain settings', s['parameter_loss_function'] is loss and s['loss_module'] == 'loss' and list(s['fit_paramater_list']) == [True] * k and
                 s['minimize_in_trafo_space'] == in_trafo and s['num_chains'] == chains and s['num_results'] == num and s['num_burnin_steps'] == 5 and
                 s['num_steps_between_results'] == 2 and s['method'] == 'Method' and s['seed'] == 'x_seed' and s['parameter_tensor_name'] == NAME)
    want = [(j, c) for j in range(num) for c in range(chains) if acc[j][c]]
    S, P = env.ref(out['samples']), env.ref(out['log_prob_values'])
    env.concrete('number of samples', list(S.shape) == [len(want), k] and list(P.shape) == [len(want)])
    for a, (j, c) in enumerate(want):
        env.equal('log probability', P[a], logp[j, c])
        for i in range(k):
            start = trafo.fwd(p0[0, i], i) if in_trafo else p0[0, i]
            env.equal('sample', S[a, i], start + step[j, c, i])
    env.concrete('the parameter tensor is transformed', all(t == NAME for t in trafo.names))


@contract(CONTRACTS, [SM + 'run_mcmc_on_events'], bounded='up to 3 chains and 2 samples of 2 or 7 parameters, one normalisation')
def chain(env):
    """the chain is run on minus the loss of each chain's parameters from the
    given positions; samples are reported as physical parameters, with the
    trace of the accepted states"""
    m = env.mod('manager.source')
    L = env.np
    k, chains, num = env.choose('parameters', [2, 7]), env.choose('chains', [1, 3]), env.choose('samples', [1, 2])
    in_trafo = env.flag('in_trafo')
    method = env.choose('method', ['HamiltonianMonteCarlo', 'NoUTurnSampler', 'RandomWalkMetropolis', 'Other'])
    trafo = Trafo(env, k)
    # plain numbers: the code changes a plain array in place by them
    trafo.data[NAME + '_std'] = L.array([env.pos('std') if env.is_concrete else 0.25 * (i + 1) for i in range(k)])
    log = [False] * k
    bad = False
    if k == 7 and env.flag('logarithmic'):
        i = env.choose('logarithmic parameter', [5, 2])
        log[i], bad = True, i != 5
    trafo.data['tensors'][NAME] = Obj(dtype='float64', shape=[-1, k], trafo_log=log)
    made, run, states = [], [], env.arr('states', [num, chains, k])
    logp, acc = env.arr('log_prob', [num, chains]), [[env.flag('accepted')] * chains] * num

    def kernel(name):
        def f(*a, **kw):
            made.append((name, a, kw))
            return (name, a, kw)
        return f

    def sample_chain(**kw):
        run.append(kw)
        accepted = Obj(target_log_prob='log prob', step_size='step size')
        res = Obj(is_accepted='accepted', accepted_results=accepted, target_log_prob='log prob')
        return env.tf.constant(states), kw['trace_fn']('states', Obj(inner_results=res, new_step_size='next', is_accepted='accepted', target_log_prob='log prob', accepted_results=accepted))
    tfp = Obj(mcmc=Obj(sample_chain=sample_chain, random_walk_normal_fn=kernel('normal'), **{n: kernel(n) for n in ('SimpleStepSizeAdaptation', 'HamiltonianMonteCarlo', 'NoUTurnSampler', 'RandomWalkMetropolis')}))
    env.patch(m, 'tfp', tfp)
    w = [env.real('w') for _ in range(k)]
    batches = []

    def loss(parameters_trafo, data_batch, seed=None):
        batches.append(data_batch)
        env.concrete('one hypothesis at a time', list(parameters_trafo.shape) == [1, k])
        return sum(parameters_trafo[0, i] * w[i] * parameters_trafo[0, 0] for i in range(k))
    x = subclass(m.SourceManager, data_trafo=trafo)
    start = env.arr('start', [chains, k])
    st = env.tf.constant(start)
    go = lambda: x.run_mcmc_on_events(initial_position=st, data_batch='batch', loss_module='loss', parameter_loss_function=loss, fit_paramater_list=[True] * k,
                                      minimize_in_trafo_space=in_trafo, num_chains=chains, seed='x_seed', num_results=num, num_burnin_steps=10, num_parallel_iterations=4,
                                      num_steps_between_results=3, method=method, parameter_tensor_name=NAME)
    if in_trafo and bad:
        env.raises('step size of a logarithmic parameter', NotImplementedError, go)
        return
    if method == 'Other':
        env.raises('unknown method', ValueError, go)
        return
    samples, trace = go()
    S = env.ref(samples)
    env.concrete('shape', list(S.shape) == [num, chains, k])
    for j in range(num):
        for c in range(chains):
            for i in range(k):
                env.equal('physical sample', S[j, c, i], trafo.inv(states[j, c, i], i) if in_trafo else states[j, c, i])
    env.concrete('trace', list(trace) == ['accepted', 'log prob'] + (['step size'] if method[0] == 'H' else []))
    kw = run[0]
    env.concrete('one chain of the stated length', len(run) == 1 and kw['num_results'] == num and kw['num_burnin_steps'] == 10 and kw['num_steps_between_results'] == 3 and
                 kw['parallel_iterations'] == 4)
    a, b = env.index('chain', chains), env.index('parameter', k)
    env.equal('start', env.ref(kw['current_state'])[a, b], start[a, b])
    used = kw['kernel']
    if used[0] == 'SimpleStepSizeAdaptation':
        env.concrete('adapted during burn in', used[2]['num_adaptation_steps'] <= 10)
        used = (used[1] + (used[2].get('inner_kernel'),))[0]
    env.concrete('method', used[0] == method)
    size = used[2]['step_size'] if method[0] in 'HN' else used[2]['new_state_fn'][2]['scale']
    size = env.ref(size)
    env.concrete('a step size per parameter', list(size.shape) in ([1, k], [k]))
    size = size[0] if len(size.shape) == 2 else size
    for i in range(k):
        env.prove('step size', size[i] > 0)
    at = env.arr('position', [chains, k])
    lp = env.ref(used[2]['target_log_prob_fn'](env.tf.constant(at)))
    env.concrete('a value per chain', list(lp.shape) == [chains])
    for c in range(chains):
        env.equal('minus the loss', lp[c], -sum(at[c, i] * w[i] * at[c, 0] for i in range(k)))
    env.concrete('of the same events', len(batches) == chains and all(d == 'batch' for d in batches))


class Scan:
    """collaborators of the angular uncertainty: fits with a fixed direction and
    their loss give any numbers; the opening angle sampler of P07"""

    def __init__(self, env, m, k, zen, azi):
        self.env, self.k = env, k
        self.fits, self.losses, self.made, self.vectors, self.cdfs, self.minimised = [], [], [], [], [], []
        self.trafo = Trafo(env, k)
        names = ['p%d' % i for i in range(k)]
        names[zen], names[azi] = 'zenith', 'azimuth'
        self.lists = {}

        def get(which):
            def f(**kw):
                full = all(kw['fit_paramater_list'])
                self.made.append((which, kw))

                def loss(parameters_trafo, data_batch, seed=None):
                    v = env.real('loss')
                    self.losses.append((full, parameters_trafo, data_batch, env.ref(seed) * 1., v))
                    return Graph(v)
                loss.__name__ = which
                if which == 'loss_and_gradients_function':
                    self.grad = loss
                return loss
            return f

        def reconstruct(data_batch, loss_module, **kw):
            fit = env.arr('fit', [1, sum(kw['fit_paramater_list'])])
            self.fits.append((data_batch, loss_module, dict(kw, seed=env.ref(kw['seed']) * 1.), fit))
            return fit, 'object'
        self.manager = Obj(configuration=Obj(config={'config': {'I3ParticleMapping': dict(zenith='zenith', azimuth='azimuth')}}), models=[Names(names)], data_trafo=self.trafo,
                           data_handler=Obj(get_data_set_signature=lambda: signature(m, k), tensors=Names([NAME])), get_parameter_loss_function=get('parameter_loss_function'),
                           get_loss_and_gradients_function=get('loss_and_gradients_function'), reconstruct_events=reconstruct)

        def vectors(zenith, azimuth, delta_psi, random_service=None, randomize_for_each_delta_psi=True, is_degree=True, return_angles=True):
            n = len(delta_psi)
            out = env.arr('zeniths', [n]), env.arr('azimuths', [n])
            self.vectors.append((zenith * 1., azimuth * 1., env.np.array(delta_psi) * 1., random_service, is_degree and return_angles, out))
            return out
        env.patch(m.angles, 'get_delta_psi_vector', vectors)

        def chi2(ddof):
            def cdf(x):
                v = env.arr('cdf', [len(x)], lo=0., hi=1.)
                self.cdfs.append((ddof, x * 1., v * 1.))
                return v
            return Obj(cdf=cdf)
        env.patch(m, 'chi2', chi2)

        def minimize(fun, x0, args=(), **kw):
            best = env.real('best sigma')
            self.minimised.append((fun, args, best))
            return Obj(x=env.np.array([best]))
        env.patch(m, 'optimize', Obj(minimize=minimize))
        env.patch(m, 'print', lambda *a, **kw: None)


def estimate(env, sc, i, deltas, dloss, ddof):
    """the i-th circularised estimate: the minimum of the squared distance to
    the Rayleigh distribution"""
    L = env.np
    fun, args, best = sc.minimised[i]
    d, x, v = sc.cdfs[-1]
    env.concrete('degrees of freedom', d == ddof)
    n = len(deltas)
    for j in range(n):
        env.equal('twice the difference of the loss', x[j], 2. * dloss[j])
    s = env.pos('sigma')
    want = sum((v[j] - (1. - L.exp(-0.5 * (deltas[j] / s)**2)))**2 for j in range(n))
    env.equal('squared distance to the Rayleigh distribution', fun(s, *args), want)
    return best


@contract(CONTRACTS, [CU + 'get_circularized_estimate', 'utils.basis_functions.rayleigh_cdf'], bounded='up to 3 points')
def circularised(env):
    """the circularised uncertainty is where the Rayleigh distribution of the
    opening angle fits the coverage (of twice the loss difference) best"""
    m = env.mod('manager.reconstruction.modules.opening_angle')
    n, ddof = env.choose('points', [1, 3]), env.choose('degrees of freedom', [2, 5])
    sc = Scan(env, m, 4, 0, 1)
    x = subclass(m.CircularizedAngularUncertainty)
    psi, dl = env.arr('delta_psi', [n], lo=0.), env.arr('delta_loss', [n])
    out = x.get_circularized_estimate(psi * 1., dl * 1., ddof=ddof)
    env.equal('estimate', out, estimate(env, sc, 0, psi, dl, ddof))


@contract(CONTRACTS, [CU + '__init__', CU + 'execute', CU + 'get_circularized_estimate'], bounded='up to 3 opening angles, 4 parameters')
def angular_uncertainty(env):
    """the loss is minimised with the direction fixed at opening angles that
    cover the range from the best fit, everything else starting there; the
    reported differences are those to the loss of the best fit"""
    m = env.mod('manager.reconstruction.modules.opening_angle')
    L = env.np
    k, N = 4, env.choose('opening angles', [2, 3])
    zen, azi = env.choose('direction', [(2, 3), (1, 0)])
    in_trafo, cov = env.flag('in_trafo'), env.flag('range from the covariance')
    sc = Scan(env, m, k, zen, azi)
    fit = [True] * k
    x = m.CircularizedAngularUncertainty(sc.manager, 'loss', Cache(), fit, 'reco', covariance_key='cov' if cov else None, minimize_in_trafo_space=in_trafo, parameter_tensor_name=NAME,
                                         scipy_optimizer_settings={'method': 'some method'}, num_fit_points=N)
    part = [i not in (zen, azi) for i in range(k)]
    env.concrete('the given list is not changed', fit == [True] * k)
    for w, kw in sc.made:
        env.concrete('the loss of the fit', kw['loss_module'] == 'loss' and kw['minimize_in_trafo_space'] == in_trafo and kw['parameter_tensor_name'] == NAME and kw['seed'] is None)
    env.concrete('fits with a fixed direction', all(list(kw['fit_paramater_list']) in (fit, part) for _, kw in sc.made) and
                 [list(kw['fit_paramater_list']) for w, kw in sc.made if w == 'loss_and_gradients_function'] == [part])
    batch = ('pulses', 'charges')
    p, pt = env.arr('best fit', [1, k]), env.arr('best fit, transformed', [1, k])
    p0 = p * 1.
    results = {'reco': dict(result=p, result_trafo=pt), 'other': {}}
    var = [env.pos('variance') for _ in range(k)]
    if cov:
        C = env.arr('sandwich', [k, k])
        for i in range(k):
            C[i, i] = var[i]
        results['cov'] = {'cov_sand': C}
    out = x.execute(batch, results)
    steps = 0 if cov else 4
    env.concrete('fits', len(sc.vectors) == steps + 1 and len(sc.fits) == steps + N and len(sc.losses) == steps + N + 1 and len(sc.cdfs) == steps + 1)
    if not cov:
        env.concrete('one loss difference each', all(len(c[1]) == 1 for c in sc.cdfs[:4]))
    # the best fit
    best = [e for e in sc.losses if e[0]]
    others = [e for e in sc.losses if not e[0]]
    env.concrete('loss of the best fit', len(best) == 1 and best[0][1] is pt and best[0][2] == batch)
    a = env.index('parameter', k)
    env.equal('best fit', best[0][3][0, a], p0[0, a])
    env.equal('results are not changed', p[0, a], p0[0, a])
    # the opening angles and directions
    for z, az, psi, rng, deg, _ in sc.vectors:
        env.concrete('opening angles in degree around the best fit', deg and len(z) == 1 and len(az) == 1)
        env.equal('zenith of the best fit', z[0], p0[0, zen])
        env.equal('azimuth of the best fit', az[0], p0[0, azi])
        env.concrete('random numbers of the module', rng is x.rng)
    points = [(i, j) for i in range(steps) for j in range(1)] + [(steps, j) for j in range(N)]
    for (i, j), (data, loss, kw, f), (_, q, d2, seed, v) in zip(points, sc.fits, others):
        dirs = sc.vectors[i][5]
        env.concrete('fit', data == batch and loss == 'loss' and list(kw['fit_paramater_list']) == part and kw['minimize_in_trafo_space'] == in_trafo and kw['method'] == 'some method' and
                     kw['parameter_tensor_name'] == NAME and kw['loss_and_gradients_function'] is sc.grad)
        env.concrete('loss at the fit', q is f and d2 == batch)
        for c in range(k):
            want = dirs[0][j] if c == zen else dirs[1][j] if c == azi else p0[0, c]
            env.equal('start of the fit', kw['seed'][0, c], want)
            env.equal('fixed parameters of the loss', seed[0, c], want)
    # the range
    lo, hi, top = 0., 90., None
    for i in range(steps):
        top = lo + (hi - lo) / 2.
        env.equal('bisection of the range', sc.vectors[i][2][0], top)
        env.equal('coverage', sc.cdfs[i][1][0], 2. * (others[i][4] - best[0][4]))
        env.concrete('degrees of freedom', sc.cdfs[i][0] == k - 2)
        if sc.cdfs[i][2][0] > 0.95:
            hi = top
        else:
            lo = top
    if cov:
        deg = 180. / env.np.pi
        top = 2. * deg * L.sqrt((var[zen] + var[azi] * L.sin(p0[0, zen])**2) / 2.)
    top = L.where(top < 89.9, top, 89.9)
    psi = sc.vectors[steps][2]
    env.concrete('number of opening angles', len(psi) == N)
    for j in range(N):
        env.equal('opening angles', psi[j], top * (j / (N - 1)), atol=1e-6)
        env.equal('reported opening angles', out['delta_psi'][j], psi[j])
        env.equal('loss difference', out['delta_loss'][j], others[steps + j][4] - best[0][4])
    b = estimate(env, sc, 0, psi, [out['delta_loss'][j] for j in range(N)], k - 2)
    env.equal('circularised uncertainty in degree', out['circular_unc_deg'], b)
    env.equal('circularised uncertainty', out['circular_unc'], b * env.np.pi / 180., atol=1e-9)


@contract(CONTRACTS, [CU + 'execute'])
def partial_fit_rejected(env):
    """the angular uncertainty is only estimated if every parameter is fitted"""
    m = env.mod('manager.reconstruction.modules.opening_angle')
    fit = [env.flag('fit') for _ in range(3)]
    env.assume(not all(fit))
    x = subclass(m.CircularizedAngularUncertainty, fit_paramater_list=fit)
    env.raises('rejected', AssertionError, lambda: x.execute('batch', {}))
