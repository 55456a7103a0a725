"""P26: results written to the frame."""
from pyvc.con import contract
from contracts.common import Obj, subclass, deep
CONTRACTS = []
R = 'ic3.reconstruction.EventGeneratorReconstruction.'
NAMES = ['x', 'zenith', 'azimuth', 'y', 'energy', 'z', 'time', 'Absorption']
MAPPING = {'x': 'x', 'y': 'y', 'z': 'z', 'zenith': 'zenith', 'azimuth': 'azimuth', 'energy': 'energy', 'time': 'time'}
PARAMS = dict(seed_keys='seed', model_names='name', model_base_dir=None, output_key='Out', pulse_key='Pulses', dom_exclusions_key='Doms', time_exclusions_key='Times', add_circular_err=False,
              add_covariances=False, add_goodness_of_fit=False, label_key='Labels', snowstorm_key='Snow', num_threads=2, minimize_in_trafo_space=True, minimize_parameter_dict={},
              minimize_parameter_default_value=True, reco_optimizer_interface='scipy', scipy_optimizer_settings={'method': 'A'}, tf_optimizer_settings={'method': 'B'},
              goodness_of_fit_settings={'num_samples': 7})


class Particle:
    def __init__(self):
        self.pos = Obj()


Particle.InfiniteTrack = 'infinite track'


class Model(Obj):
    def __init__(self, names):
        Obj.__init__(self, parameter_names=names, num_parameters=len(names), num_variables=(1, 2))

    def get_index(self, n):
        return self.parameter_names.index(n)


class Tray:
    """the reconstruction tray under its contract (P17): modules in the order
    they were added"""

    def __init__(self, manager, loss_module):
        self.manager, self.loss_module = manager, loss_module
        self.module_names, self.modules = [], []

    def add_module(self, module, name=None, **settings):
        self.module_names.append(name)
        self.modules.append((module, settings))


def configured(env, names=NAMES, log=(), mapping=MAPPING, models=1, **params):
    m = env.mod('ic3.reconstruction')
    number = (lambda v: v) if not env.is_concrete else float
    env.patch(m, 'dataclasses', Obj(I3MapStringDouble=dict, I3MapKeyDouble=dict, I3Particle=Particle, I3Direction=lambda z, a: ('direction', z, a)))
    env.patch(m, 'icetray', Obj(OMKey=lambda s, o: (s, o)))
    env.patch(m, 'print', lambda *a, **k: None)
    env.patch(m, 'ReconstructionTray', Tray)
    built = []
    config = {'I3ParticleMapping': dict(mapping)} if mapping is not None else {}
    mgr = Obj(models=[Model(list(names)) for _ in range(models)], data_trafo=Obj(data={'tensors': {'x_parameters': Obj(trafo_log=[n in log for n in names], dtype='float64')}}),
              configuration=Obj(config={'config': config}), data_handler=Obj())
    env.patch(m, 'ManagerConfigurator', lambda **kw: [built.append(kw), Obj(manager=mgr, loss_module='loss module')][1])
    values = dict(deep(PARAMS), **params)
    pushed = []
    x = subclass(m.EventGeneratorReconstruction, GetParameter=lambda self, k: values[k], PushFrame=lambda self, f: pushed.append(f))
    x.Configure()
    return x, mgr, built, pushed


def adjusted(name, log):
    return 'log_' + name if name in log else name


@contract(CONTRACTS, [R + 'Configure'], bounded='up to 2 seeds and 2 models, 8 parameters')
def configuration(env):
    """the stated models are loaded with the stated keys; the tray fits the
    stated parameters from each seed, selects the best fit and runs exactly the
    requested modules on it, in the parameter space of the fit"""
    seeds = env.choose('seeds', ['a', ['a'], ['a', 'b']])
    models = env.choose('models', ['m', ['m', 'n']])
    base = env.choose('directory', [None, '/base'])
    default, trafo = env.flag('default'), env.flag('in_trafo')
    d = env.choose('parameters', [{}, {'energy': True, 'zenith': False}])
    cov, gof, circ = env.flag('covariances'), env.flag('goodness'), env.flag('angular uncertainty')
    good = env.choose('settings', [{'num_samples': 7}, {'num_samples': 3, 'reconstruct_samples': False, 'add_per_dom_calculation': False}])
    x, mgr, built, _ = configured(env, seed_keys=seeds, model_names=models, model_base_dir=base, minimize_parameter_default_value=default, minimize_parameter_dict=d, minimize_in_trafo_space=trafo,
                                  add_covariances=cov, add_goodness_of_fit=gof, add_circular_err=circ, goodness_of_fit_settings=dict(good), reco_optimizer_interface='some')
    names = [models] if isinstance(models, str) else models
    seeds = [seeds] if isinstance(seeds, str) else seeds
    kw = built[0]
    env.concrete('models', len(built) == 1 and kw['manager_dirs'] == [('/base/' if base else '') + n for n in names] and kw['num_threads'] == 2 and kw.get('load_labels', False) is False and
                 kw.get('reco_config_dir') is None)
    env.concrete('keys', kw['misc_setting_updates'] == {'seed_names': seeds} and
                 kw['data_setting_updates'] == dict(pulse_key='Pulses', dom_exclusions_key='Doms', time_exclusions_key='Times') and
                 kw['label_setting_updates'] == dict(label_key='Labels', snowstorm_key='Snow'))
    tray = x.reco_tray
    env.concrete('tray', tray.manager is mgr and tray.loss_module == 'loss module')
    env.concrete('names are unique', len(set(tray.module_names)) == len(tray.module_names))
    fit = [d.get(n, default) for n in NAMES]
    kinds = [c for c, _ in tray.modules]
    env.concrete('modules', kinds == ['Reconstruction'] * len(seeds) + ['SelectBestReconstruction'] + ['CovarianceMatrix'] * cov + ['GoodnessOfFit'] * gof + ['CircularizedAngularUncertainty'] * circ)
    recos = tray.module_names[:len(seeds)]
    for s, (_, st) in zip(seeds, tray.modules):
        env.concrete('fit from the seed', st['seed_tensor_name'] == s and list(st['fit_paramater_list']) == fit and st['minimize_in_trafo_space'] == trafo and
                     st['parameter_tensor_name'] == 'x_parameters' and st['reco_optimizer_interface'] == 'some' and st['scipy_optimizer_settings'] == {'method': 'A'} and
                     st['tf_optimizer_settings'] == {'method': 'B'} and not st.get('seed_from_previous_module', False))
    best = tray.module_names[len(seeds)]
    env.concrete('best of all fits', list(tray.modules[len(seeds)][1]['reco_names']) == recos and best == 'reco')
    pos = dict(zip(kinds, range(len(kinds))))
    for c, st in tray.modules[len(seeds) + 1:]:
        env.concrete('%s at the best fit' % c, st['reco_key'] == best and list(st['fit_paramater_list']) == fit and st['minimize_in_trafo_space'] == trafo and st['parameter_tensor_name'] == 'x_parameters')
        if c != 'CovarianceMatrix':
            env.concrete('%s uses the covariance' % c, st['covariance_key'] == (tray.module_names[pos['CovarianceMatrix']] if cov else None))
        if c == 'GoodnessOfFit':
            want = dict(dict(reconstruct_samples=True, add_per_dom_calculation=True), **good)
            env.concrete('settings', all(st[k] == v for k, v in want.items()))
        if c == 'CircularizedAngularUncertainty':
            env.concrete('optimiser', st['scipy_optimizer_settings'] == {'method': 'A'})


@contract(CONTRACTS, [R + 'Configure'])
def unknown_parameter(env):
    """parameters the model does not have are rejected"""
    env.raises('rejected', ValueError, lambda: configured(env, minimize_parameter_dict={'Unknown': True}))


def matrix(env, name):
    return env.arr(name, [len(NAMES)] * 2)


def check_matrix(env, frame, key, c, log):
    env.concrete('%s is written' % key, key in frame)
    n = len(NAMES)
    names = [adjusted(a, log) for a in NAMES]
    env.concrete('every pair once', sorted(frame[key]) == sorted(names[i] + '_' + names[j] for i in range(n) for j in range(i, n)))
    for i in range(n):
        for j in range(i, n):
            env.equal('%s_%s' % (names[i], names[j]), frame[key][names[i] + '_' + names[j]], c[i, j])


@contract(CONTRACTS, [R + 'Physics', R + 'write_cov_matrix', R + 'Configure'], bounded='8 parameters; selected modules for the values per module')
def written(env):
    """the frame holds every fitted parameter under its name, the particle with
    the mapped parameters, the covariances under the names of both parameters
    (those of logarithms named so), the goodness of fit per event and module and the
    angular uncertainty"""
    m = env.mod('ic3.reconstruction')
    L = env.np
    log = env.choose('logarithmic', [(), ('energy',), ('energy', 'Absorption')])
    mapping = env.choose('mapping', [MAPPING, {'azimuth': 'azimuth', 'zenith': 'zenith', 'time': 'energy'}, None])
    # covariances, goodness of fit, per module, refitted samples, angular uncertainty
    cov, gof, per_dom, samples, circ = env.choose('parts', [(False, False, True, True, False), (True, False, True, True, False), (False, True, True, False, False), (False, True, False, True, False),
                                                            (False, True, False, False, True), (True, True, True, True, True)])
    some = cov or gof
    # the covariance of logarithms is only given by fits in the transformed space,
    # the one of refitted samples always refers to the parameters themselves
    trafo = env.flag('in_trafo') if cov and log else True
    if not env.is_concrete:
        env.patch(m, 'float', lambda v: v)
    x, mgr, _, pushed = configured(env, log=log, mapping=mapping, minimize_in_trafo_space=trafo, add_covariances=cov, add_goodness_of_fit=gof, add_circular_err=circ,
                                   goodness_of_fit_settings={'add_per_dom_calculation': per_dom, 'reconstruct_samples': samples})
    n = len(NAMES)
    p = env.arr('result', [1, n])
    tray = x.reco_tray
    times = {name: env.real('runtime') for name in tray.module_names}
    ok = some or env.flag('success')
    kind = 'scipy' if some else env.choose('optimiser', ['scipy', 'tf'])
    obj = Obj(success=ok) if kind == 'scipy' else (type('Result', (), dict(converged=env.tf.constant([ok])))())
    res = {name: {'runtime': times[name]} for name in tray.module_names}
    ls, lr = env.real('loss_seed'), env.real('loss_reco')
    res['reco'].update(result=p, result_object=obj, loss_seed=ls, loss_reco=lr)
    covs = {}
    if cov:
        covs = {k: matrix(env, k) for k in ('cov', 'cov_sand_trafo')}
        res['covariance'].update(covs)
    good = {}
    if gof:
        good = {k: env.real(k) for k in ('event_p_value_1sided', 'event_p_value_2sided', 'loss_sample_min', 'loss_sample_max', 'loss_sample_mean', 'loss_sample_median', 'loss_sample_std', 'loss_data_fit')}
        res['GoodnessOfFit'].update(good)
        if per_dom:
            res['GoodnessOfFit'].update(dom_p_value1=env.arr('dom1', [86, 60]), dom_p_value2=env.arr('dom2', [86, 60]))
        if samples:
            res['GoodnessOfFit'].update(sample_reco_cov=matrix(env, 'sample cov'), sample_reco_bias=env.arr('bias', [n]))
    if circ:
        res['CircularizedAngularUncertainty'].update(circular_unc=env.real('unc'))
    frame, calls = {'Pulses': 1}, []
    count = 1 if some else env.choose('events', [1, 2])
    mgr.data_handler.get_data_from_frame = lambda f: (count, 'batch') if f is frame else None
    tray.execute = lambda b: [calls.append(b), res][1]
    if count != 1:
        env.raises('one event', AssertionError, lambda: x.Physics(frame))
        env.concrete('nothing is written', frame == {'Pulses': 1} and not pushed)
        return
    x.Physics(frame)
    env.concrete('the event is reconstructed once', calls == ['batch'] and len(pushed) == 1 and pushed[0] is frame)
    out = frame['Out']
    keys = ['Pulses', 'Out'] + ['Out_I3Particle'] * (mapping is not None) + ['Out_cov_matrix_' + k for k in covs]
    if gof:
        keys += ['Out_GoodnessOfFit_1sided', 'Out_GoodnessOfFit_2sided'] * per_dom + ['Out_cov_matrix_goodness_of_fit'] * samples
    env.concrete('written keys', sorted(frame) == sorted(keys))
    for i, name in enumerate(NAMES):
        env.equal(name, out[name], p[0, i])
    for name, t in times.items():
        env.equal('runtime', out['runtime_' + name], t)
    env.concrete('success', bool(out['minimization_success']) == ok)
    env.equal('loss_seed', out['loss_seed'], ls)
    env.equal('loss_reco', out['loss_reco'], lr)
    if mapping:
        q = frame['Out_I3Particle']
        for key, par in mapping.items():
            v = p[0, NAMES.index(par)]
            if key in ('zenith', 'azimuth'):
                env.equal('direction', q.dir[1 + (key == 'azimuth')], v)
            else:
                env.equal(key, getattr(q.pos if key in 'xyz' else q, key), v)
    for k, c in covs.items():
        check_matrix(env, frame, 'Out_cov_matrix_' + k, c, log if trafo else ())
    names = dict(event_p_value_1sided='goodness_of_fit_1sided', event_p_value_2sided='goodness_of_fit_2sided')
    for k, v in good.items():
        env.equal(k, out[names.get(k, 'goodness_' + k)], v)
    if gof and samples:
        check_matrix(env, frame, 'Out_cov_matrix_goodness_of_fit', res['GoodnessOfFit']['sample_reco_cov'], ())
        for i, name in enumerate(NAMES):
            env.equal('bias', out[name + '_sample_reco_bias'], res['GoodnessOfFit']['sample_reco_bias'][i])
    if gof and per_dom:
        a, b = frame['Out_GoodnessOfFit_1sided'], frame['Out_GoodnessOfFit_2sided']
        env.concrete('every module', len(a) == len(b) == 86 * 60)
        every = [(s, o) for s in range(86) for o in range(60)]
        for s, o in every if env.is_concrete else every[::37] + every[-1:]:
            env.equal('one-sided value', a[(s + 1, o + 1)], res['GoodnessOfFit']['dom_p_value1'][s, o])
            env.equal('two-sided value', b[(s + 1, o + 1)], res['GoodnessOfFit']['dom_p_value2'][s, o])
    if circ:
        env.equal('angular uncertainty', out['circular_unc'], res['CircularizedAngularUncertainty']['circular_unc'])
