"""P07: directions and angles."""
from pyvc.con import contract
CONTRACTS = []
A = 'utils.angles'


def dot3(a, b, i):
    return a[i, 0] * b[i, 0] + a[i, 1] * b[i, 1] + a[i, 2] * b[i, 2]


@contract(CONTRACTS, [A + '.get_angle'])
def opening_angle(env):
    """the angle between two non-zero vectors lies in [0, pi] and satisfies
    cos(angle) |a||b| = a.b, for vectors of any length"""
    L = env.np
    n = env.int('n', 1)
    a = env.tensor('a', [n, 3], dtype='float64')
    b = env.tensor('b', [n, 3], dtype='float64')
    i = env.index('i', n)
    A_, B_ = env.ref(a), env.ref(b)
    na2, nb2 = dot3(A_, A_, i), dot3(B_, B_, i)
    env.assume(na2 > 0)
    env.assume(nb2 > 0)
    th = env.ref(env.mod(A).get_angle(a, b))
    env.concrete('one angle per pair', len(th.shape) == 1)
    t = th[i]
    env.prove('angle >= 0', t >= 0)
    env.prove('angle <= pi', t <= L.pi + 1e-9)
    h = t / 2
    env.equal('cosine of the angle', (2 * L.cos(h) ** 2 - 1) * L.sqrt(na2) * L.sqrt(nb2), dot3(A_, B_, i), atol=1e-6)


@contract(CONTRACTS, [A + '.get_angle_deviation'])
def great_circle(env):
    """angular distance of two directions given as azimuth and zenith"""
    L = env.np
    n = env.int('n', 1)
    az1, ze1, az2, ze2 = [env.tensor(k, [n], dtype='float64') for k in ('az1', 'ze1', 'az2', 'ze2')]
    d = env.ref(env.mod(A).get_angle_deviation(az1, ze1, az2, ze2))
    R = env.ref
    c = L.cos(R(az1) - R(az2)) * L.sin(R(ze1)) * L.sin(R(ze2)) + L.cos(R(ze1)) * L.cos(R(ze2))
    env.equal('spherical law of cosines', d, L.arccos(L.clip(c, -1., 1.)))
    env.leq('non-negative', 0 * d, d)
    env.leq('at most pi', d, 0 * d + L.pi)
    back = env.ref(env.mod(A).get_angle_deviation(az2, ze2, az1, ze1))
    env.equal('symmetric', back, d, atol=1e-6)


class Rng:
    """a random service returning arbitrary (adversarial) vectors"""

    def __init__(self, env, vals):
        self.env, self.vals, self.sizes = env, vals, []

    def uniform(self, low=None, high=None, size=None):
        self.sizes.append((low, high, size))
        return self.vals(size)


@contract(CONTRACTS, [A + '.get_delta_psi_vector_dir'])
def displaced_direction(env):
    """a direction displaced by psi < 90 deg is a unit vector at exactly that
    opening angle from the original, whatever the random numbers are"""
    L = env.np
    n = env.int('n', 1)
    shape = env.choose('shapes', ['a vector for each', 'one vector', 'one displacement'])
    v = env.arr('v', [1 if shape == 'one vector' else n, 3])
    psi = env.arr('psi', [1 if shape == 'one displacement' else n], lo=0., hi=1.5)
    deg = env.flag('is_degree')
    each = env.flag('each')
    rng = Rng(env, lambda size: env.arr('random', size))
    i = env.index('i', n)
    iv, ip = 0 if shape == 'one vector' else i, 0 if shape == 'one displacement' else i
    vv = dot3(v, v, iv)
    env.assume(vv > 0)
    m = env.mod(A)
    out = m.get_delta_psi_vector_dir(v, L.rad2deg(psi) if deg else psi, randomize_for_each_delta_psi=each, random_service=rng, is_degree=deg)
    env.concrete('one direction per vector', len(out.shape) == 2)
    env.equal('unit length', dot3(out, out, i), 1.)
    t = L.tan(psi[ip])
    dot = sum(out[i, c] * v[iv, c] for c in range(3))
    env.equal('opening angle', dot ** 2 * (vv + t * t), vv * vv)
    env.prove('same hemisphere', dot >= 0)


@contract(CONTRACTS, [A + '.get_delta_psi_vector_dir'])
def too_large_displacement(env):
    """displacements of 90 degrees and more are rejected, also when others of the
    requested ones are smaller"""
    n = env.int('n', 1)
    v = env.arr('v', [n if env.flag('many vectors') else 1, 3])
    psi = env.arr('psi', [n], lo=0., hi=170.)
    k = env.index('k', n)
    env.assume(psi[k] >= 90.)
    rng = Rng(env, lambda size: env.arr('random', size))
    env.raises('rejected', ValueError, lambda: env.mod(A).get_delta_psi_vector_dir(v, psi, random_service=rng))


@contract(CONTRACTS, [A + '.get_delta_psi_vector'])
def displaced_angles(env):
    """direction angles are converted to a unit vector and back: zenith is the
    polar angle, azimuth lies in [0, 2 pi)"""
    L = env.np
    n = env.int('n', 1)
    zen, az = env.arr('zenith', [n]), env.arr('azimuth', [n])
    psi = env.arr('psi', [n], lo=0., hi=1.)
    m = env.mod(A)
    seen = []
    res = env.arr('displaced', [n, 3])

    def stub(vec, delta_psi=None, random_service=None, randomize_for_each_delta_psi=True, is_degree=True):
        seen.append((vec, delta_psi, random_service, randomize_for_each_delta_psi, is_degree))
        return res
    env.patch(m, 'get_delta_psi_vector_dir', stub)
    deg, each, ang = env.flag('is_degree'), env.flag('each'), env.flag('return_angles')
    out = m.get_delta_psi_vector(zen, az, psi, random_service='rs', randomize_for_each_delta_psi=each, is_degree=deg, return_angles=ang)
    env.concrete('displaced once with the given options', len(seen) == 1 and seen[0][2:] == ('rs', each, deg))
    i = env.index('i', n)
    env.equal('x', seen[0][0][i, 0], L.sin(zen[i]) * L.cos(az[i]))
    env.equal('y', seen[0][0][i, 1], L.sin(zen[i]) * L.sin(az[i]))
    env.equal('z', seen[0][0][i, 2], L.cos(zen[i]))
    env.equal('displacement', seen[0][1], psi)
    if not ang:
        env.equal('vector returned', out, res)
        return
    z, a = out
    env.equal('zenith', z, L.arccos(L.clip(res[:, 2], -1, 1)))
    env.leq('azimuth >= 0', 0 * a, a)
    env.prove('azimuth < 2 pi', a[i] < 2 * L.pi + 1e-9)
    at = L.arctan2(res[:, 1], res[:, 0])
    env.equal('azimuth is the polar angle in the plane', a, L.where(at < 0, at + 2 * L.pi, at))


@contract(CONTRACTS, [A + '.get_angle', A + '.get_angle_deviation', A + '.get_delta_psi_vector', A + '.get_delta_psi_vector_dir'], mode='run')
def angles_agree(env):
    """all angle conventions agree with the unit vectors they stand for (evaluated)"""
    L = env.np
    n = env.int('n', 1)
    az1, az2 = [env.arr(k, [n], lo=0., hi=6.28) for k in ('az1', 'az2')]
    ze1, ze2 = [env.arr(k, [n], lo=0.01, hi=3.13) for k in ('ze1', 'ze2')]

    def vec(ze, az):
        return L.stack([L.sin(ze) * L.cos(az), L.sin(ze) * L.sin(az), L.cos(ze)], axis=-1)
    m = env.mod(A)
    want = L.arccos(L.clip(L.sum(vec(ze1, az1) * vec(ze2, az2), axis=-1), -1, 1))
    c = env.tf.constant
    env.equal('angle deviation', m.get_angle_deviation(c(az1), c(ze1), c(az2), c(ze2)), want, atol=1e-5)
    env.equal('angle of vectors', m.get_angle(c(vec(ze1, az1)), c(vec(ze2, az2))), want, atol=1e-5)
    psi = env.arr('psi', [n], lo=0.1, hi=89.)
    z, a = m.get_delta_psi_vector(ze1, az1, psi, random_service=env.rng)
    back = L.arccos(L.clip(L.sum(vec(ze1, az1) * vec(z, a), axis=-1), -1, 1))
    env.equal('displacement', back, L.deg2rad(psi), atol=1e-6)
