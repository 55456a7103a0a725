"""P30: reconstruction of the test data."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, Names, subclass, Disk, deep
CONTRACTS = []
S = 'manager.source.SourceManager.'
PARAMS = ['energy', 'azimuth', 'zenith']


class Frame:
    """a table: columns by name"""
    made = []

    def __init__(self, data=None, columns=None, **kw):
        self.cols, self.saved = dict(data or {}), None
        Frame.made.append(self)

    def __setitem__(self, k, v):
        self.cols[k] = v

    def __getitem__(self, k):
        return self.cols[k]

    def assign(self, **kw):
        self.cols.update(kw)
        return self

    def to_hdf(self, path, key=None, mode='a', format=None, data_columns=None, **kw):
        assert self.saved is None
        self.saved = (path, key, mode, format, data_columns)


class Graph:
    def __init__(self, v):
        self.v = v

    def numpy(self):
        return self.v


def by_value(env, a):
    """a numpy array of symbolic values (proof side only)"""
    import numpy as np
    return isinstance(a, np.ndarray) and not env.is_concrete


def value(env, column, i):
    """entry i of a column"""
    if by_value(env, column):
        return column[i]
    return env.ref(column)[i] if not isinstance(column, (list, tuple)) else column[i]


def entries(env, a):
    return a if by_value(env, a) else env.ref(a)


def length(column):
    return len(column) if isinstance(column, (list, tuple)) else int(column.shape[0])


class Setup:
    def __init__(self, env, n, **options):
        self.env, L = env, env.np
        m = self.m = env.mod('manager.source')
        if options.get('by value') and not env.is_concrete:
            import numpy as np
            from contracts import objnp
            L = objnp.Numpy()
            for q in ('argmax', 'argsort'):     # of the log probabilities, which are given
                setattr(L, q, lambda a, f=getattr(np, q): f(np.array(a, dtype=float)))
            for q, v in (('np', L), ('min', lambda a: objnp.smallest(list(a))), ('max', lambda a: objnp.largest(list(a)))):
                env.patch(m, q, v)
        self.disk = Disk(env, m)
        Frame.made = []
        env.patch(m, 'pd', Obj(DataFrame=Frame))
        env.patch(m, 'print', lambda *a, **k: None)
        setup = self
        k = len(PARAMS)
        self.n, self.k = n, k
        self.batches, self.want, self.results, self.losses = [], [], [], []
        self.w = [env.real('weight') for _ in range(k)]
        seeds = options.get('seeds', ['x_seed'])
        seeds = [seeds] if isinstance(seeds, str) else seeds
        for i in range(n):
            t = {q: [env.real(q) for _ in range(k)] for q in ('true', 'reco', 'x_seed', 'y_seed')}
            arr = {q: L.array([v]) for q, v in t.items()}
            self.batches.append((L.array([[float(i)]]), arr['true'], arr['y_seed'], arr['x_seed']))
            best = seeds[env.choose('best seed', list(range(len(seeds))))]
            r = {'reco': dict(result=arr['reco'], seed_tensor_name='sel_reco_random' if options.get('previous') else best, seed_from_previous_module=bool(options.get('previous')))}
            t['seed'] = t['true'] if best == 'x_parameters' else t[best]
            t['cov'] = {}
            r['covariance'] = {}
            for q in ('cov', 'cov_fit', 'cov_sand', 'cov_sand_fit'):
                c = [[env.real(q) if a != b else env.pos(q) for b in range(k)] for a in range(k)]
                t['cov'][q] = c
                r['covariance'][q] = L.array(c)
            t['p'] = [env.real('p1'), env.real('p2')]
            r['GoodnessOfFit'] = {'event_p_value_1sided': t['p'][0], 'event_p_value_2sided': t['p'][1]}
            if options.get('samples'):
                t['bias'] = [env.real('bias') for _ in range(k)]
                t['sample_cov'] = [[env.real('sc') if a != b else env.pos('sc') for b in range(k)] for a in range(k)]
                r['GoodnessOfFit'].update(sample_reco_cov=L.array(t['sample_cov']), sample_reco_bias=L.array(t['bias']))
            t['unc'] = env.real('circular')
            r['CircularizedAngularUncertainty'] = {'circular_unc': t['unc']}
            if 'mcmc' in options:
                t['mcmc'] = [(q, [env.real('sample') for _ in range(k)]) for q in options['mcmc']]
                r['mcmc'] = {'log_prob_values': L.array([q for q, _ in t['mcmc']]) if t['mcmc'] else L.zeros([0]), 'samples': L.array([s for _, s in t['mcmc']]) if t['mcmc'] else L.zeros([0, k])}
            self.want.append(t)
            self.results.append(r)
        self.modules, self.executed, self.opened = [], [], []

        class Tray:
            def __init__(self, manager, loss_module):
                setup.tray = (manager, loss_module)

            def add_module(self, kind, name=None, **kw):
                assert name not in [q[1] for q in setup.modules] and not setup.executed
                setup.modules.append((kind, name, kw))

            def execute(self, batch):
                i = [j for j, b in enumerate(setup.batches) if b is batch][0]
                setup.executed.append(i)
                return setup.results[i]
        env.patch(m, 'ReconstructionTray', Tray)
        names = Names(['x_data', 'x_parameters', 'y_seed', 'x_seed'])
        handler = Obj(tensors=names, get_data_set_signature=lambda: 'sig', get_batch_generator=lambda **kw: setup.opened.append(kw) or iter(list(setup.batches)))
        trafo = Obj(data={'tensors': {'x_parameters': Obj(dtype='float64')}})
        model = Obj(num_parameters=k, parameter_names=list(PARAMS), num_variables=(1, 2), get_index=PARAMS.index)

        def get_loss(data_batch, *a, **kw):
            i = int(data_batch[0][0, 0]) if env.is_concrete else [j for j, b in enumerate(setup.batches) if b[0] is data_batch[0]][0]
            setup.losses.append((i, kw))
            return Graph(setup.loss(i, [entries(env, data_batch[1])[0, j] for j in range(k)]))
        self.mgr = subclass(m.SourceManager, assert_configured=lambda s, v: None, configuration=Obj(config={'config': {'I3ParticleMapping': {'zenith': 'zenith', 'azimuth': 'azimuth'}}}), models=[model], data_handler=handler,
                            data_trafo=trafo, _logger=NullLog(), get_loss=lambda s, b, **kw: get_loss(b, **kw), get_concrete_function=lambda s, function, input_signature, **kw: (lambda data_batch: function(data_batch, **kw)))

    def loss(self, i, p):
        return 3. * i + sum(a * b for a, b in zip(self.w, p))

    def config(self, **kw):
        c = dict(minimize_in_trafo_space=True, minimize_parameter_default_value=True, minimize_parameter_dict={}, reco_output_file=self.disk.path('sub', 'dir', 'reco.v1.hdf5'), parameter_tensor_name='x_parameters',
                 calculate_covariance_matrix=False, calculate_goodness_of_fit=False, estimate_angular_uncertainty=False, run_mcmc=False, make_1d_llh_scans=False, seed='x_seed', reco_optimizer_interface='scipy',
                 scipy_optimizer_settings={'method': 'Z'}, tf_optimizer_settings={'method': 'Y'})
        c.update(kw)
        self.c = {'reconstruction_settings': c, 'data_iterator_settings': {'test': {'batch_size': 1}, 'training': {'batch_size': 3}}}
        return self.c

    def table(self):
        t = [f for f in Frame.made if f.saved and f.saved[0] == self.c['reconstruction_settings']['reco_output_file']]
        self.env.concrete('one table', len(t) == 1 and t[0].saved[1:] == ('Variables', 'w', 'table' if t[0].saved[3] == 'table' else 't', True))
        return t[0].cols


@contract(CONTRACTS, [S + 'reconstruct_testdata'], bounded='up to 3 events of one batch each, 3 parameters')
def table(env):
    """one row per event, in order: the true, the reconstructed and the seed
    values of every parameter with their losses, and what was calculated"""
    n = env.choose('events', [1, 3])
    seeds = env.choose('seeds', ['x_seed', 'x_parameters', ['y_seed', 'x_seed']])
    cov, gof, unc, samples = env.flag('covariance'), env.flag('goodness of fit'), env.flag('angular uncertainty'), env.flag('samples')
    s = Setup(env, n, seeds=seeds, samples=samples)
    L = env.np
    c = s.config(seed=seeds, calculate_covariance_matrix=cov, calculate_goodness_of_fit=gof, estimate_angular_uncertainty=unc)
    loss = Obj()
    s.mgr.reconstruct_testdata(c, loss)
    env.concrete('every event once', s.executed == list(range(n)) and s.opened == [{'batch_size': 1}])
    env.concrete('the stated loss', s.tray == (s.mgr, loss) and all(kw['loss_module'] is loss and kw['is_training'] is False and kw['parameter_tensor_name'] == 'x_parameters' and
                                                                   all(not v for v in kw['opt_config'].values()) for _, kw in s.losses))
    t = s.table()
    want = {q + e for q in PARAMS for e in ['', '_reco', '_seed'] + (['_unc', '_unc_fit', '_unc_sandwhich', '_unc_sandwhich_fit'] if cov else []) + (['_unc_samples', '_sample_reco_bias'] if gof and samples else [])}
    want |= {'loss_true', 'loss_reco', 'loss_seed'} | ({'cov_zenith_azimuth', 'cov_fit_zenith_azimuth'} if cov else set()) | ({'event_p_value_1sided', 'event_p_value_2sided'} if gof else set()) | ({'circular_unc'} if unc else set())
    env.concrete('columns', set(t) == want)
    env.concrete('rows', all(length(v) == n for v in t.values()))
    eq = lambda name, col, i, v: env.equal(name, value(env, t[col], i), v)
    for i, w in enumerate(s.want):
        for q in ('true', 'reco', 'seed'):
            eq('loss', 'loss_' + q, i, s.loss(i, w[q]))
        for j, p in enumerate(PARAMS):
            eq('truth', p, i, w['true'][j])
            eq('reconstruction', p + '_reco', i, w['reco'][j])
            eq('seed', p + '_seed', i, w['seed'][j])
            if cov:
                for q, e in (('cov', '_unc'), ('cov_fit', '_unc_fit'), ('cov_sand', '_unc_sandwhich'), ('cov_sand_fit', '_unc_sandwhich_fit')):
                    eq('uncertainty', p + e, i, L.sqrt(w['cov'][q][j][j]))
            if gof and samples:
                eq('bias', p + '_sample_reco_bias', i, w['bias'][j])
                eq('spread', p + '_unc_samples', i, L.sqrt(w['sample_cov'][j][j]))
        if cov:
            eq('correlation', 'cov_zenith_azimuth', i, w['cov']['cov'][2][1])
            eq('correlation of the fit', 'cov_fit_zenith_azimuth', i, w['cov']['cov_fit'][2][1])
        if gof:
            eq('p value', 'event_p_value_1sided', i, w['p'][0])
            eq('p value', 'event_p_value_2sided', i, w['p'][1])
        if unc:
            eq('angular uncertainty', 'circular_unc', i, w['unc'])


@contract(CONTRACTS, [S + 'reconstruct_testdata'], bounded='up to 2 seeds and 2 random seeds')
def steps(env):
    """one fit per seed (after the best of the random seeds, if asked for), the
    best of them is reported, and exactly the requested steps use it"""
    seeds = env.choose('seeds', ['x_seed', ['x_seed'], ['y_seed', 'x_seed']])
    names = [seeds] if isinstance(seeds, str) else seeds
    random = env.choose('random seeds', [None, 2]) if len(names) == 1 else None
    cov, gof, unc, mcmc, scans = env.choose('requested', [[w == str(i) or w == 'all' or w == '0' + str(i) for i in range(5)] for w in ['none', '0', '1', '2', '3', '4', '01', '02', 'all']])
    default, fixed = env.choose('fitted', [(True, {}), (True, {'zenith': False}), (False, {'zenith': True, 'energy': True})])
    where = env.choose('output', ['new directory', 'existing directory', 'here']) if not (gof or mcmc) else 'new directory'
    s = Setup(env, 1, seeds=seeds, previous=bool(random), mcmc=[])
    c = s.config(seed=seeds, calculate_covariance_matrix=cov, calculate_goodness_of_fit=gof, estimate_angular_uncertainty=unc, run_mcmc=mcmc, make_1d_llh_scans=scans, minimize_parameter_default_value=default,
                 minimize_parameter_dict=dict(fixed), minimize_in_trafo_space=env.flag('in trafo space'))
    r = c['reconstruction_settings']
    if random:
        r['num_random_seeds'] = random
    if where == 'existing directory':
        s.disk.touch('sub/dir/other.hdf5')
    elif where == 'here':
        r['reco_output_file'] = 'reco.v1.hdf5'
    s.mgr.reconstruct_testdata(c, 'loss')
    t = s.table()
    for j, p in enumerate(PARAMS):
        env.equal('seed of the best fit', value(env, t[p + '_seed'], 0), s.want[0]['seed'][j])
    fit = [fixed.get(p, default) for p in PARAMS]
    by = {name: (kind, kw) for kind, name, kw in s.modules}
    order = [name for _, name, _ in s.modules]
    common = {'fit_paramater_list': fit, 'minimize_in_trafo_space': r['minimize_in_trafo_space'], 'parameter_tensor_name': 'x_parameters'}
    env.concrete('settings common to all steps', all(all(kw[q] == v for q, v in common.items()) for kind, _, kw in s.modules if kind != 'SelectBestReconstruction'))
    fits = [(name, kw) for kind, name, kw in s.modules if kind == 'Reconstruction']
    for name in names:
        own = [f for f in fits if f[1]['seed_tensor_name'] == name and not f[1].get('seed_from_previous_module') and not f[1].get('randomize_seed')]
        env.concrete('one fit from the seed', len(own) == 1)
        kw = own[0][1]
        env.concrete('as configured', kw['reco_optimizer_interface'] == 'scipy' and kw['scipy_optimizer_settings'] == {'method': 'Z'} and kw['tf_optimizer_settings'] == {'method': 'Y'})
    rnd = [f for f in fits if f[1].get('randomize_seed')]
    later = [f for f in fits if f[1].get('seed_from_previous_module')]
    env.concrete('random seeds', len(rnd) == (random or 0) and len(later) == (1 if random else 0) and all(f[1]['seed_tensor_name'] == names[0] and not f[1].get('seed_from_previous_module') for f in rnd))
    env.concrete('no other fits', len(fits) == len(names) + len(rnd) + len(later))
    if random:
        kind, kw = by[later[0][1]['seed_tensor_name']]
        env.concrete('from the best of the random seeds', kind == 'SelectBestReconstruction' and sorted(kw['reco_names']) == sorted(f[0] for f in rnd))
        env.concrete('in order', max(order.index(f[0]) for f in rnd) < order.index(later[0][1]['seed_tensor_name']) < order.index(later[0][0]))
    kind, kw = by['reco']
    best = sorted(f[0] for f in fits if f not in rnd)
    env.concrete('the best of all fits', kind == 'SelectBestReconstruction' and sorted(kw['reco_names']) == best and all(order.index(b) < order.index('reco') for b in best))
    kinds = {'CovarianceMatrix': cov, 'GoodnessOfFit': gof, 'CircularizedAngularUncertainty': unc, 'MarkovChainMonteCarlo': mcmc, 'Visualize1DLikelihoodScan': scans}
    for kind, asked in kinds.items():
        found = [(name, kw) for q, name, kw in s.modules if q == kind]
        env.concrete('requested steps', len(found) == int(asked))
        if asked:
            name, kw = found[0]
            env.concrete('of the best fit', kw['reco_key'] == 'reco' and order.index('reco') < order.index(name))
            if kind in ('GoodnessOfFit', 'CircularizedAngularUncertainty'):
                cv = [q for w, q, _ in s.modules if w == 'CovarianceMatrix']
                env.concrete('with its covariance', kw['covariance_key'] == (cv[0] if cov else None) and (not cov or order.index(cv[0]) < order.index(name)))
    env.concrete('names under which results are read', all((q in by) == asked for q, asked in (('covariance', cov), ('GoodnessOfFit', gof), ('CircularizedAngularUncertainty', unc), ('mcmc', mcmc))))
    if where == 'new directory':
        env.concrete('directory', s.m.os.path.exists(s.disk.path('sub', 'dir')))


@contract(CONTRACTS, [S + 'reconstruct_testdata'], bounded='up to 2 events with up to 3 samples of 3 parameters')
def samples(env):
    """the posterior samples of every event are written to a file of its own,
    ordered by their probability"""
    n = env.choose('events', [1, 2])
    q = env.choose('log probabilities', [[], [-2.], [-1., -3., -2.]])
    s = Setup(env, n, mcmc=q, **{'by value': True})
    c = s.config(run_mcmc=True)
    s.mgr.reconstruct_testdata(c, 'loss')
    files = [f for f in Frame.made if f.saved and '_mcmc_' in f.saved[0]]
    env.concrete('one file per event with samples', [f.saved[0] for f in files] == ([s.disk.path('sub', 'dir', 'reco.v1_mcmc_%08d.hdf5' % i) for i in range(n)] if q else []))
    for f, t in zip(files, s.want):
        want = sorted(t['mcmc'], key=lambda v: v[0])
        env.concrete('columns', sorted(f.cols) == sorted(['log_prob'] + ['samples_' + p for p in PARAMS]) and f.saved[2] == 'w')
        for i, (lp, x) in enumerate(want):
            env.equal('log probability', value(env, f.cols['log_prob'], i), lp)
            for j, p in enumerate(PARAMS):
                env.equal('sample', value(env, f.cols['samples_' + p], i), x[j])
