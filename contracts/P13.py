"""P13: source models predict valid charges and normalised pulse densities."""
from pyvc.con import contract
from contracts.source import Setup, cascade_config, systematics_config, segment_config, quantile_config
CONTRACTS = []
CA, SY, QU, SE, NO = [('model.source.' + m, c) for m, c in (
    ('cascade.default', 'DefaultCascadeModel'), ('cascade.systematic', 'SystematicsCascadeModel'), ('cascade.charge_quantiles', 'ChargeQuantileCascadeModel'),
    ('track.stochastic_segment', 'StochasticTrackSegmentModel'), ('noise.default', 'DefaultNoiseModel'))]
F = lambda *ms: ['%s.%s.%s' % (m[0], m[1], f) for m in ms for f in ('get_tensors', '_build_architecture')]


def components(env, out, key, n=2, prefix=''):
    return [[env.ref(out[prefix + 'latent_var_' + k])[key + (j,)] for k in ('mu', 'sigma', 'r', 'scale')] for j in range(n)]


def valid_mixture(env, comp):
    total = 0
    for mu, sigma, r, w in comp:
        env.prove('width > 0', sigma > 0)
        env.prove('asymmetry > 0', r > 0)
        env.prove('weight > 0', w > 0)
        total = total + w
    env.equal('weights add up to one', total, 1.)


def density(env, comp, t, norm=None):
    bf = env.mod('utils.basis_functions')
    want = 0
    for j, (mu, sigma, r, w) in enumerate(comp):
        want = want + w * bf.asymmetric_gauss(t, mu, sigma, r) / (1. if norm is None else norm[j])
    return want


@contract(CONTRACTS, F(CA), time=90)
def cascade_pulses(env):
    """the density of a pulse is the normalised mixture of its own event and
    module at its time after the vertex (in microseconds)"""
    s = Setup(env, *CA, config=cascade_config(num_latent_models=3 if env.flag('three') else 2), exclusions=env.choose('exclusions', [False, 'missing']),
              name=env.choose('name', ['x_parameters', 'x_seed']))
    out = s.run()
    p, key = s.pulse()
    comp = components(env, out, key, s.model.configuration.config['config']['num_latent_models'])
    valid_mixture(env, comp)
    env.concrete('one density per pulse', len(out['pulse_pdf'].shape) == 1)
    t = (env.ref(s.pulses)[p, 1] - s.R[key[0], 6]) * 0.001
    env.equal('pulse density', env.ref(out['pulse_pdf'])[p], density(env, comp, t))
    if len(comp) == 2 and not s.tensors.names.count('x_seed'):
        env.prove('densities are not negative', env.ref(out['pulse_pdf'])[p] >= 0)
    env.concrete('no exclusions', 'dom_cdf_exclusion_sum' not in out)


@contract(CONTRACTS, F(CA), time=90)
def cascade_exclusions(env):
    """the excluded probability of every component is the cumulative
    distribution within the windows of that module (kept between 0 and 1), the
    densities of the remaining time and the charge are rescaled with it"""
    s = Setup(env, *CA, config=cascade_config(), exclusions=True)
    bf = env.mod('utils.basis_functions')
    out = s.run()
    p, key = s.pulse()
    X = env.ref(out['dom_cdf_exclusion'])
    # windows
    b, st, d = s.dom()
    env.concrete('shape', len(X.shape) == 4)
    W, I = env.ref(s.windows), env.ref(s.wids)
    comp = components(env, out, (b, st, d))
    total = 0
    for j, (mu, sigma, r, w) in enumerate(comp):
        e = X[b, st, d, j]
        env.prove('excluded probability >= 0', e >= 0)
        env.prove('excluded probability <= 1', e <= 1)
        total = total + e * w
    env.equal('over all components', env.ref(out['dom_cdf_exclusion_sum'])[b, st, d, 0], env.np.clip(total, 0., 1.))
    comp = components(env, out, key)
    t = (env.ref(s.pulses)[p, 1] - s.R[key[0], 6]) * 0.001
    env.equal('pulse density', env.ref(out['pulse_pdf'])[p], density(env, comp, t, [1.001 - X[key + (j,)] for j in range(2)]))


@contract(CONTRACTS, F(CA), time=90, trials=10)
def cascade_windows(env):
    """windows count for their own event and module only"""
    s = Setup(env, *CA, config=cascade_config(), exclusions=True)
    cdf = s.stand_in_cdf()
    out = s.run(False)
    b, st, d = s.dom()
    W, I, P = env.ref(s.windows), env.ref(s.wids), s.R
    mu, sigma, r, w = components(env, out, (b, st, d))[1]
    L = env.np
    a, z = [cdf((W[:, q] - P[:, 6][I[:, 0]]) * 0.001, mu, sigma, r) for q in range(2)]
    here = (I[:, 0] == b) & (I[:, 1] == st) & (I[:, 2] == d)
    env.equal('windows of this module', env.ref(out['dom_cdf_exclusion'])[b, st, d, 1], L.clip(L.sum(L.where(here, L.clip(z - a, 0., 1.), 0.)), 0., 1.))


@contract(CONTRACTS, F(CA), time=90)
def cascade_order(env):
    """if asked for, the components of a module are ordered in time and are a
    rearrangement of what the network predicts; else they are left in place"""
    swap = env.choose('prevent swapping', [True, False, 'not given'])
    kw = {} if swap == 'not given' else dict(prevent_mixture_component_swapping=swap)
    s = Setup(env, *CA, config=cascade_config(**kw))
    out = s.run(False)
    b, st, d = s.dom()
    L, M, U = env.np, env.ref(out['latent_var_mu']), env.ref(s.nets[0].out)
    raw = [1. + U[b, st, d, 2 + j] for j in range(2)]
    got = [M[b, st, d, j] for j in range(2)]
    if swap is True:
        env.leq('earlier first', got[0], got[1])
        env.equal('the earliest', got[0], L.minimum(*raw))
        env.equal('the latest', got[1], L.maximum(*raw))
    else:
        for g, r in zip(got, raw):
            env.equal('in place', g, r)


@contract(CONTRACTS, F(CA), time=90)
def cascade_charges(env):
    """predicted charges are positive, scale as declared, and their variance is
    not smaller than that of counting statistics"""
    kind = env.choose('charge distribution', [False, 'negative_binomial', True])
    eff, glob, scale = env.choose('factors', [(True, True, True), (False, False, False), (True, False, False), (False, True, False), (False, False, True)])
    s = Setup(env, *CA, config=cascade_config(estimate_charge_distribution=kind, scale_charge=scale, scale_charge_by_relative_dom_efficiency=eff, scale_charge_by_global_dom_efficiency=glob,
                                              additional_label_names=['label'], snowstorm_parameter_names=[['DOMEfficiency', 1], ['Ice_{}', 2]]), exclusions=eff and glob and kind == 'negative_binomial' and env.flag('exclusions'))
    env.concrete('parameter names', list(s.names) == ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time', 'label', 'DOMEfficiency', 'Ice_0', 'Ice_1'])
    out = s.run(False)
    b, st, d = s.dom()
    env.assume(s.R[b, 5] >= 0)
    env.assume(s.R[b, 8] >= 0)
    charges(env, s, out, (b, st, d), kind, (s.R[b, 5] / 10000. if scale else 1.) * (s.R[b, 8] if glob else 1.) * (env.ref(s.eff)[st, d] if eff else 1.)
            * (1.001 - env.ref(out['dom_cdf_exclusion_sum'])[b, st, d, 0] if s.excl else 1.))


def charges(env, s, out, key, kind, factor, net=0):
    L = env.np
    key1 = key + (0,)
    q, var, unc = [env.ref(out['dom_charges' + k])[key1] for k in ('', '_variance', '_unc')]
    U = env.ref(s.nets[net].out)[key + (0,)]
    env.concrete('one charge per event and module', [len(out[k].shape) for k in ('dom_charges', 'dom_charges_variance')] == [4, 4])
    if s.excl:
        env.prove('charges are positive, as the excluded part is at most 1', env.ref(out['dom_cdf_exclusion_sum'])[key1] <= 1)
    else:
        env.prove('charges are positive', q > 0)
    env.equal('charge', q, L.exp(U) * factor + 1e-7)
    if s.excl:
        return
    env.equal('uncertainty', unc, L.sqrt(var))
    true = env.ref(s.batch['x_dom_charge'])[key1]
    bf = env.mod('utils.basis_functions')
    if kind is False:
        env.equal('counting statistics', var, q)
    elif kind == 'negative_binomial':
        alpha = env.ref(out['dom_charges_alpha'])[key1]
        env.prove('over dispersion > 0', alpha > 0)
        env.equal('variance of a negative binomial', var, q + alpha * q * q)
        env.equal('log probability', env.ref(out['dom_charges_log_pdf_values'])[key1], bf.log_negative_binomial(true, q, alpha), rtol=2e-3, atol=2e-3)
    else:
        sigma, r = [env.ref(out['dom_charges_' + k])[key1] for k in ('sigma', 'r')]
        env.prove('width > 0', sigma > 0)
        env.prove('asymmetry > 0', r > 0)


@contract(CONTRACTS, F(CA, QU), time=90)
def cascade_features(env):
    """what the network sees for a module is the geometry between the vertex of
    this event and this module, the transformed parameters and, if asked for,
    the position of the module and its own variables; in the declared number"""
    opening, coords, local, more = env.choose('features', [(True, True, True, True), (False, False, False, False), (True, False, True, False), (False, True, False, True)])
    kw = dict(additional_label_names=['label'], snowstorm_parameter_names=[['Ice_{}', 2]]) if more else {}
    which, make = env.choose('model', [(CA, cascade_config), (QU, quantile_config)])
    s = Setup(env, *which, config=make(add_opening_angle=opening, add_dom_coordinates=coords, num_local_vars=2 if local else 0, **kw))
    angle = s.stand_in_angle()
    s.run(False)
    L, net = env.np, s.nets[0]
    b, st, d = s.dom()
    X, P, T = env.ref(net.input), s.R, s.trafo
    env.concrete('declared number of channels', int(net.input.shape[-1]) == s.declared[0]['input_shape'][-1] and s.declared[0]['input_shape'][:-1] == [-1, 86, 60])
    env.concrete('locally connected or convolutional without rotations', s.declared[0]['hex_num_rotations_list'] == 1)
    dl = [env.ref(s.xyz)[st, d, j] - P[b, j] for j in range(3)]
    r2 = dl[0] * dl[0] + dl[1] * dl[1] + dl[2] * dl[2]
    env.assume(r2 > 1.)
    ze, az = P[b, 3], P[b, 4]
    want = [T.fwd(P[b, j], j) for j in range(3)] + [-L.sin(ze) * L.cos(az), -L.sin(ze) * L.sin(az), -L.cos(ze)] + [T.fwd(P[b, 5], 5)] + [T.fwd(P[b, j], j) for j in range(7, len(s.names))]
    dist = L.sqrt(r2)
    want += [x / dist for x in dl]
    norm = L.sqrt(T.std[0] * T.std[0] + T.std[1] * T.std[1] + T.std[2] * T.std[2]) + T.data['norm_constant']
    want.append(dist / norm)
    at = len(want)
    if opening:
        want.append(None)
    if coords:
        want += [env.ref(s.xyz)[st, d, j] / 284. for j in range(3)]
    if local:
        want += [env.ref(s.w)[0, st, d, j] for j in range(2)]
    env.concrete('number of features', int(net.input.shape[-1]) == len(want))
    for j, w in enumerate(want):
        if w is not None:
            env.equal('feature %d' % j, X[b, st, d, j], w, atol=2e-3)
    if opening:
        angle.check(X[b, st, d, at] * (T.data['norm_constant'] + T.std[3]) + T.mean[3], (b, st, d), want[3:6], [x / dist for x in dl])


@contract(CONTRACTS, F(CA, NO))
def refusals(env):
    """settings that do not fit together are refused"""
    case = env.choose('case', ['filters', 'one component', 'not configured', 'noise not configured'])
    if case == 'noise not configured':
        s = Setup(env, *NO, config={})
        s.model.__dict__['_is_configured'] = False
    else:
        s = Setup(env, *CA, config=cascade_config(num_latent_models=1 if case == 'one component' else 2))
        if case == 'filters':
            s.model.configuration.config['config']['num_filters_list'][-1] += env.choose('by', [-1, 1])
        if case == 'not configured':
            s.model.__dict__['_is_configured'] = False
    env.raises(case, ValueError, lambda: s.run(False))


@contract(CONTRACTS, F(NO), time=90)
def noise(env):
    """noise has a constant density in the readout window of the event, and a
    charge in proportion to its length and the noise rate of the module"""
    s = Setup(env, *NO, config={}, exclusions=env.choose('exclusions', [False, 'missing']))
    env.concrete('no parameters', list(s.names) == [] and s.weight_shapes == [[2]])
    out = s.run(False)
    p, key = s.pulse()
    b, st, d = s.dom()
    W = env.ref(s.batch['x_time_window'])
    env.assume(W[b, 1] - W[b, 0] > 1.)
    env.assume(W[key[0], 1] - W[key[0], 0] > 1.)
    live = lambda e: W[e, 1] - W[e, 0]
    pdf = env.ref(out['pulse_pdf'])[p]
    env.concrete('one density per pulse', len(out['pulse_pdf'].shape) == 1)
    env.equal('integrates to one over the readout window in microseconds', pdf * live(key[0]) * 0.001, 1.)
    q, var, unc, alpha = env.ref(out['dom_charges'])[b, st, d, 0], env.ref(out['dom_charges_variance'])[b, st, d, 0], env.ref(out['dom_charges_unc'])[b, st, d, 0], env.ref(out['dom_charges_alpha'])[0, 0, 0, 0]
    env.prove('charges are positive', q > 0)
    env.prove('over dispersion > 0', alpha > 0)
    env.equal('variance', var, q + alpha * q * q)
    env.equal('uncertainty', unc * unc, var)
    rate = env.ref(s.rate)
    # one scale for all events and modules
    b2, s2, d2 = env.index('event 2', s.B), env.index('string 2', 86), env.index('dom 2', 60)
    env.assume(live(b2) > 1.)
    q2 = env.ref(out['dom_charges'])[b2, s2, d2, 0]
    env.equal('proportional to rate and length', (q - 1e-7) * rate[s2, d2] * live(b2), (q2 - 1e-7) * rate[st, d] * live(b), atol=1e-3)


@contract(CONTRACTS, F(NO), time=90, trials=15)
def noise_exclusions(env):
    """windows (clipped to the readout) count for their own event and module
    only, and rescale density and charge"""
    s = Setup(env, *NO, config={}, exclusions=True)
    L = env.np
    W = env.ref(s.batch['x_time_window'])
    p, key = s.pulse()
    b, st, d = s.dom()
    E, I = env.ref(s.windows), env.ref(s.wids)
    live = lambda e: W[e, 1] - W[e, 0]
    out = s.run(False)

    def want(k):
        """only windows of this event contribute: the readout of the event can be used for all"""
        f = (L.clip(E[:, 1], W[k[0], 0], W[k[0], 1]) - L.clip(E[:, 0], W[k[0], 0], W[k[0], 1])) / live(k[0])
        here = (I[:, 0] == k[0]) & (I[:, 1] == k[1]) & (I[:, 2] == k[2])
        return L.clip(L.sum(L.where(here, L.clip(f, 0., 1.), 0.)), 0., 1.)
    X = env.ref(out['dom_cdf_exclusion'])
    env.equal('excluded part', X[b, st, d, 0], want((b, st, d)), atol=1e-4)
    env.equal('sum', env.ref(out['dom_cdf_exclusion_sum'])[b, st, d, 0], X[b, st, d, 0])
    env.equal('density', env.ref(out['pulse_pdf'])[p] * live(key[0]) * 0.001 * (1.001 - X[key + (0,)]), 1.)
    q = env.ref(out['dom_charges'])[b, st, d, 0]
    env.prove('charges are positive', q > 0)


def other(env, which, **kw):
    k = dict(scale_charge_by_global_dom_efficiency=False, snowstorm_parameter_names=[['DOMEfficiency', 1], ['Ice_{}', 2]])
    k.update(kw)
    make = {'systematic': systematics_config, 'segment': segment_config, 'quantiles': quantile_config}[which]
    return Setup(env, *{'systematic': SY, 'segment': SE, 'quantiles': QU}[which], config=make(**k), logs=[False] * 5 + [True] + [False] * 6 if which == 'segment' else None,
                 name=env.choose('name', ['x_parameters', 'x_seed']) if not kw else 'x_parameters')


@contract(CONTRACTS, F(SY, SE), time=90)
def other_pulses(env):
    """the same for cascades with shared systematics and for track segments"""
    which = env.choose('model', ['systematic', 'segment'])
    s = other(env, which)
    out = s.run(None if which == 'systematic' else False)
    p, key = s.pulse()
    comp = components(env, out, key)
    valid_mixture(env, comp)
    env.concrete('one density per pulse', len(out['pulse_pdf'].shape) == 1)
    t = (env.ref(s.pulses)[p, 1] - s.R[key[0], 6]) * 0.001
    env.equal('pulse density', env.ref(out['pulse_pdf'])[p], density(env, comp, t))


@contract(CONTRACTS, F(QU), time=90)
def quantile_pulses(env):
    """the density of a pulse given its quantile is a normalised mixture at its
    time after the vertex; the light takes its way at the speed in ice"""
    s = other(env, 'quantiles', add_predicted_charge_to_latent_vars=env.flag('predicted charge'))
    out = s.run(False)
    p, key = s.pulse()
    comp = [[env.ref(out['quantile_latent_var_' + k])[p, j] for k in ('mu', 'sigma', 'r', 'scale')] for j in range(2)]
    valid_mixture(env, comp)
    env.concrete('one density per pulse', len(out['pulse_quantile_pdf'].shape) == 1)
    R, L = env.ref(s.pulses), env.np
    t = (R[p, 1] - s.R[key[0], 6]) * 0.001
    env.equal('pulse density', env.ref(out['pulse_quantile_pdf'])[p], density(env, comp, t))
    d = [env.ref(s.xyz)[key[1], key[2], j] - s.R[key[0], j] for j in range(3)]
    r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    env.assume(r2 > 1.)
    env.equal('light propagation', comp[1][0], L.sqrt(r2) / 0.22103046286329384 * 0.001 + 0.1 + 0.1 * env.ref(s.nets[1].out)[p, 1], atol=2e-3)
    env.concrete('declared inputs', int(s.nets[1].input.shape[-1]) == s.declared[1]['input_shape'][-1])
    # the network sees this pulse, its module and the latent variables of its module
    X, n = env.ref(s.nets[1].input), 2
    true, q = env.ref(s.batch['x_dom_charge'])[key + (0,)], R[p, 0]
    env.assume(R[p, 2] > 0)
    env.assume(q > 0)
    env.assume(true > 0)
    env.equal('quantile', X[p, 0], L.log(R[p, 2]), atol=1e-3)
    env.equal('measured charge', X[p, 1], 0.1 * L.log(true + 1.), atol=1e-3)
    env.equal('charge of the pulse', X[p, 2], L.log(q / true), atol=1e-3)
    env.equal('latent variables of the module', X[p, 3 + 4], env.ref(s.nets[0].out)[key + (n + 4,)])


@contract(CONTRACTS, F(SY, SE, QU), time=90)
def other_charges(env):
    """charges of the other models"""
    which, kind = env.choose('model', [('systematic', False), ('systematic', 'negative_binomial'), ('systematic', True), ('segment', 'negative_binomial'), ('segment', True), ('quantiles', 'negative_binomial'), ('quantiles', False)])
    on = env.flag('scaled')
    s = other(env, which, estimate_charge_distribution=kind, scale_charge=on, scale_charge_by_relative_dom_efficiency=on, scale_charge_by_global_dom_efficiency=on)
    out = s.run(False)
    b, st, d = s.dom()
    i = list(s.names).index('DOMEfficiency')
    env.assume(s.R[b, 5] >= 0)
    env.assume(s.R[b, i] >= 0)
    charges(env, s, out, (b, st, d), kind, (s.R[b, 5] / 10000. if on else 1.) * (s.R[b, i] if on or which == 'systematic' else 1.) * (env.ref(s.eff)[st, d] if on else 1.), net=1 if which == 'systematic' else 0)


@contract(CONTRACTS, F(SY), time=90)
def systematic_features(env):
    """the local network sees the geometry only; the shared one additionally all
    parameters except the overall efficiency, and the output of the local one"""
    opening, aniso, coords, local = env.choose('features', [(True, True, True, 2), (False, False, False, 0), (True, False, True, 0), (False, True, False, 2)])
    s = Setup(env, *SY, config=systematics_config(add_opening_angle=opening, add_anisotropy_angle=aniso, add_dom_coordinates=coords, num_local_vars=local,
                                                  additional_label_names=['label'], snowstorm_parameter_names=[['DOMEfficiency', 1], ['Ice_{}', 2]]))
    angle = s.stand_in_angle()
    s.run(False)
    L, P, T = env.np, s.R, s.trafo
    b, st, d = s.dom()
    for net, dec in zip(s.nets, s.declared):
        env.concrete('declared number of channels', int(net.input.shape[-1]) == dec['input_shape'][-1] and dec['input_shape'][:-1] == [-1, 86, 60] and dec['hex_num_rotations_list'] == 1)
    dl = [env.ref(s.xyz)[st, d, j] - P[b, j] for j in range(3)]
    r2 = dl[0] * dl[0] + dl[1] * dl[1] + dl[2] * dl[2]
    env.assume(r2 > 1.)
    dist = L.sqrt(r2)
    ze, az = P[b, 3], P[b, 4]
    n = [-L.sin(ze) * L.cos(az), -L.sin(ze) * L.sin(az), -L.cos(ze)]
    geo = [x / dist for x in dl] + [dist / (L.sqrt(T.std[0] * T.std[0] + T.std[1] * T.std[1] + T.std[2] * T.std[2]) + T.data['norm_constant'])]
    loc = [env.ref(s.w)[0, st, d, j] for j in range(local)]
    first = geo + loc
    X = env.ref(s.nets[0].input)
    env.concrete('local features', int(s.nets[0].input.shape[-1]) == len(first))
    for j, w in enumerate(first):
        env.equal('local feature %d' % j, X[b, st, d, j], w, atol=2e-3)
    want = n + [T.fwd(P[b, 5], 5)] + geo
    at = len(want)
    if opening:
        want.append(None)
    if aniso:
        want.append(None)
    if coords:
        want += [env.ref(s.xyz)[st, d, j] / 284. for j in range(3)]
    keep = [j for j in range(7, len(s.names)) if s.names[j] != 'DOMEfficiency']
    want += [T.fwd(P[b, j], j) for j in keep] + [env.ref(s.nets[0].out)[b, st, d, j] for j in range(4)]
    X = env.ref(s.nets[1].input)
    env.concrete('shared features', int(s.nets[1].input.shape[-1]) == len(want))
    for j, w in enumerate(want):
        if w is not None:
            env.equal('shared feature %d' % j, X[b, st, d, j], w, atol=2e-3)
    if opening:
        angle.check(X[b, st, d, at] * (T.data['norm_constant'] + T.std[3]) + T.mean[3], (b, st, d), n, [x / dist for x in dl])
