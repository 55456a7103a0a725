"""P20: decomposition of tracks."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass
from contracts.source import Setup, segment_config
CONTRACTS = []
ST, MU = 'model.multi_source.track.stochastic_track.StochasticTrackModel.', 'model.multi_source.muon.default.DefaultMultiCascadeModel.'
SE = 'model.source.track.stochastic_segment.StochasticTrackSegmentModel.'
C = 0.299792458


def build(env, module, cls, config, bases, far=False):
    m = env.mod(module)
    x = subclass(getattr(m, cls))
    object.__setattr__(x, '_logger', NullLog())
    x.__dict__.update(_is_configured=False, _untracked_data={}, _configuration=None, _data=None, _sub_components={})
    names, sources = x.get_parameters_and_mapping(config, bases)
    x._untracked_data.update(sources=sources, parameter_names=names, num_parameters=len(names))
    x.__dict__.update(_is_configured=True)
    B = env.int('events', 1, 5)
    t = env.tensor('parameters', [B, len(names)])
    if env.is_concrete:
        # runs: tracks within and far outside of the detector
        by = [1., 100., 300.][env.int('far', 0, 3)] if far else 1.
        t = t * env.tf.constant([by if n in 'xyz' else 1. for n in names])

        class P:
            """indexable tensor with an attribute for the names"""
            def __init__(self, t):
                self.t, self.shape = t, t.shape

            def __getitem__(self, k):
                return self.t[k]
        t = P(t)
    got = x.get_source_parameters(x.add_parameter_indexing(t))
    R = env.ref(t.t if env.is_concrete else t)
    e = env.index('event', B)
    return names, sources, got, lambda n: R[e, names.index(n)], e


def direction(env, g):
    L = env.np
    return [-L.sin(g('zenith')) * L.cos(g('azimuth')), -L.sin(g('zenith')) * L.sin(g('azimuth')), -L.cos(g('zenith'))]


@contract(CONTRACTS, [ST + f for f in ('get_parameters_and_mapping', 'get_source_parameters')], bounded='up to 11 cascades')
def stochastic_track(env):
    """the segment starts at the first and ends at the last distance, cascades
    are at their distances from the anchor, all of them on the track, at the
    time a particle with the speed of light gets there"""
    n = env.choose('cascades', [0, 1, 2, 3, 11])
    snow = env.choose('snowstorm', [None, [], [['Ice_{}', 1]], [['Abs', 1], ['Ice_{}', 3]]])
    bases = {'cascade': 1, 'track': 2} if env.flag('order') else {'track': 1, 'cascade': 2}
    names, sources, got, g, e = build(env, 'model.multi_source.track.stochastic_track', 'StochasticTrackModel', dict({'num_cascades': n}, **({} if snow is None else {'snowstorm_parameter_names': snow})), bases)
    extra = [p.format(i) for p, k in snow or [] for i in range(k)]
    own = ['cascade_%04d' % i for i in range(n)]
    env.concrete('sources', sources == dict({k: 'cascade' for k in own}, track='track') and sorted(got) == sorted(sources))
    env.concrete('parameters', sorted(names) == sorted(['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'track_anchor_time', 'track_energy', 'track_distance_start', 'track_distance_end',
                 'track_stochasticity'] + [k + '_energy' for k in own] + [k + '_distance' for k in own[1:]] + extra) and names[len(names) - len(extra):] == extra)
    d = direction(env, g)
    at = lambda s: [g('track_anchor_' + q) + s * d[j] for j, q in enumerate('xyz')]
    when = lambda s: g('track_anchor_time') + s / C
    start, end = g('track_distance_start'), g('track_distance_end')
    want = {'track': at(start) + [g('zenith'), g('azimuth'), g('track_energy'), when(start), end - start, g('track_stochasticity')]}
    for i, k in enumerate(own):
        s = g(k + '_distance') if i else 0.
        want[k] = at(s) + [g('zenith'), g('azimuth'), g(k + '_energy'), when(s)]
    for k in sources:
        w = want[k] + [g(p) for p in extra]
        env.concrete('number of parameters', int(got[k].shape[-1]) == len(w))
        R = env.ref(got[k])
        for j in range(len(w)):
            env.equal('%s %d' % (k[:7], j), R[e, j], w[j], atol=1e-3)


@contract(CONTRACTS, [ST + 'get_parameters_and_mapping', MU + 'get_parameters_and_mapping'])
def bases(env):
    """unexpected base sources are refused"""
    which = env.flag('track')
    bad = env.choose('bases', [{}, {'cascade': 1, 'x': 2}, {'track': 1}, {'cascade': 1, 'track': 2, 'noise': 3}])
    go = lambda b: build(env, 'model.multi_source.track.stochastic_track', 'StochasticTrackModel', {'num_cascades': 1}, b) if which else build(env, 'model.multi_source.muon.default', 'DefaultMultiCascadeModel', {'num_cascades': 1}, b)
    env.raises('refused', ValueError, lambda: go(bad))


@contract(CONTRACTS, [MU + f for f in ('get_parameters_and_mapping', 'get_source_parameters')], bounded='up to 11 cascades')
def muon(env):
    """cascades at equal distances of the point closest to the origin, on the
    track, at the time a particle with the speed of light gets there; without
    energy if they are outside of the detector"""
    n = env.choose('cascades', [1, 2, 5, 11])
    names, sources, got, g, e = build(env, 'model.multi_source.muon.default', 'DefaultMultiCascadeModel', {'num_cascades': n}, {'cascade': 1}, far=True)
    own = ['cascade_%04d' % i for i in range(n)]
    env.concrete('sources', sources == {k: 'cascade' for k in own} and sorted(got) == own)
    env.concrete('parameters', names == ['x', 'y', 'z', 'zenith', 'azimuth', 'time'] + [k + '_log_energy' for k in own])
    L, d = env.np, direction(env, g)
    p = [g(q) for q in 'xyz']
    s0 = -(d[0] * p[0] + d[1] * p[1] + d[2] * p[2])
    for i, k in enumerate(own):
        s = s0 + (-500. + 1000. * i / (n - 1) if n > 1 else -500.)
        R = env.ref(got[k])
        at = [p[j] + s * d[j] for j in range(3)]
        env.concrete('number of parameters', int(got[k].shape[-1]) == 7)
        for j, w in enumerate(at + [g('zenith'), g('azimuth')]):
            env.equal('place and direction %d' % j, R[e, j], w, atol=2e-3)
        env.equal('time', R[e, 6], g('time') + s / C, atol=2e-2)
        env.assume((L.abs(R[e, 0]) > 700.01) | (L.abs(R[e, 0]) < 699.99))
        inside = (L.abs(R[e, 0]) <= 700.) & (L.abs(R[e, 1]) <= 700.) & (L.abs(R[e, 2]) <= 700.)
        env.equal('energy', R[e, 5], L.where(inside, L.exp(g(k + '_log_energy')), 0.))


@contract(CONTRACTS, [SE + f for f in ('get_tensors', '_build_architecture', 'get_dep_energy', 'shift_distance_on_track')], time=90)
def segment_features(env):
    """what the network sees of a segment: the geometry between the module and
    the point of the segment closest to it, and the energies deposited before,
    after, and where the Cherenkov light comes from"""
    opening, coords, local, snow = env.choose('features', [(True, True, 2, True), (False, False, 0, False), (True, False, 2, False)])
    log = env.flag('logarithmic energy')
    kw = dict(snowstorm_parameter_names=[['Ice_{}', 2]]) if snow else {}
    s = Setup(env, 'model.source.track.stochastic_segment', 'StochasticTrackSegmentModel', config=segment_config(add_opening_angle=opening, add_dom_coordinates=coords, num_local_vars=local, **kw),
              logs=[False] * 5 + [log] + [False] * 8)
    env.concrete('parameter names', list(s.names) == ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time', 'length', 'stochasticity'] + (['Ice_0', 'Ice_1'] if snow else []))
    angle = s.stand_in_angle()
    shift, dep = lambda d, l: d + sp(-d) - sp(d - l), None
    L = env.np
    sp = (lambda x: L.logaddexp(0., x)) if env.is_concrete else (lambda x: env.ref(env.tf.math.softplus(x)))
    b, st, d = s.dom()
    P, T = s.R, s.trafo
    env.assume(P[b, 5] >= 0)
    env.assume(P[b, 7] >= 0)
    s.run(False)
    net, X = s.nets[0], env.ref(s.nets[0].input)
    env.concrete('declared number of channels', int(net.input.shape[-1]) == s.declared[0]['input_shape'][-1] and s.declared[0]['input_shape'][:-1] == [-1, 86, 60] and s.declared[0]['hex_num_rotations_list'] == 1)
    ze, az = P[b, 3], P[b, 4]
    n = [-L.sin(ze) * L.cos(az), -L.sin(ze) * L.sin(az), -L.cos(ze)]
    length, energy = P[b, 7] + 1., P[b, 5] + 0.1
    h = [env.ref(s.xyz)[st, d, j] - P[b, j] for j in range(3)]
    along = n[0] * h[0] + n[1] * h[1] + n[2] * h[2]
    closest = shift(along, length)
    off = [h[j] - closest * n[j] for j in range(3)]
    norm = lambda v: L.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    distance = norm(off) + 0.1
    radial = norm([h[j] - along * n[j] for j in range(3)])
    dep = lambda d1, d2: energy * (L.abs(shift(d2, length) - shift(d1, length)) / length)
    e = [dep(closest - 100., closest), dep(closest, closest + 100.), dep(along - radial / env.np.tan(env.np.arccos(1. / 1.3195)), along)]
    if log:
        e = [L.log(1. + x) for x in e]
    e = [(x - T.mean[5]) / (T.std[5] + T.data['norm_constant']) for x in e]
    scale = L.sqrt(T.std[0] * T.std[0] + T.std[1] * T.std[1] + T.std[2] * T.std[2]) + T.data['norm_constant']
    want = n + [T.fwd(P[b, 5], 5)] + [T.fwd(P[b, j], j) for j in range(7, len(s.names))] + [x / distance for x in off] + [distance / scale, (along - closest) / scale] + e
    want += [closest / length, L.tanh(along / length / 10.)]
    at = len(want)
    if opening:
        want.append(None)
    if coords:
        want += [env.ref(s.xyz)[st, d, j] / 284. for j in range(3)]
    want += [env.ref(s.w)[0, st, d, j] for j in range(local)]
    env.concrete('number of features', int(net.input.shape[-1]) == len(want))
    for j, w in enumerate(want):
        if w is not None:
            env.equal('feature %d' % j, X[b, st, d, j], w, atol=5e-3)
    if opening:
        angle.check(X[b, st, d, at] * (T.data['norm_constant'] + T.std[3]) + T.mean[3], (b, st, d), n, [x / distance for x in off])


@contract(CONTRACTS, [SE + f for f in ('get_dep_energy', 'shift_distance_on_track')])
def along_the_segment(env):
    """distances are moved onto the segment, keeping their order; a part of the
    segment deposits its share of the energy"""
    x = subclass(env.mod('model.source.track.stochastic_segment').StochasticTrackSegmentModel)
    f32 = 'float64'
    l, d1, d2 = env.tensor('length', [2], lo=1., dtype=f32), env.tensor('first', [2], dtype=f32), env.tensor('second', [2], dtype=f32)
    en = env.tensor('energy', [2], lo=0., dtype=f32)
    i = env.index('i', 2)
    a, b, L = [env.ref(v)[i] for v in (d1, d2, l)]
    s1, s2 = [env.ref(x.shift_distance_on_track(l, v))[i] for v in (d1, d2)]
    tiny = 1e-9 if env.is_concrete else 0.
    if env.is_concrete:
        env.prove('after the start', s1 >= 0. - tiny)
        env.prove('before the end', s1 <= L + tiny)
        env.prove('order', (s1 <= s2 + tiny) | (a > b))
    else:
        # orders are compared after the exponential function, which is
        # increasing: exp(shifted d) * (1 + exp(d - length)) = 1 + exp(d)
        e = env.np.exp
        f1, f2 = [1. + e(v - L) for v in (a, b)]
        env.equal('shifted first', e(s1) * f1, 1. + e(a))
        env.equal('shifted second', e(s2) * f2, 1. + e(b))
        A, B, q = e(a), e(b), e(0. - L)
        env.prove('after the start', 1. + A >= 1. + A * q)
        env.prove('before the end', (1. + A) * q <= 1. + A * q)
        env.prove('order', ((1. + A) * (1. + B * q) <= (1. + B) * (1. + A * q)) | (a > b))
    E = env.ref(x.get_dep_energy(en, l, d1, d2))[i]
    env.equal('share of the energy', E * L, env.ref(en)[i] * env.np.abs(s2 - s1))
    env.prove('not negative', E >= 0)
