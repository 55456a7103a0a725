"""P06: probability basis functions."""
from pyvc.con import contract
CONTRACTS = []
BF = 'utils.basis_functions'


def args(env, tf, lo=-8., hi=8.):
    n = env.int('n', 1)
    dt = 'float64'
    mk = lambda s, a, b, st=False: env.tensor(s, [n], np_like=not tf, lo=a, hi=b, strict=st, dtype=dt)
    x, mu = env.tensor('x', [n], np_like=not tf, dtype=dt), env.tensor('mu', [n], np_like=not tf, dtype=dt)
    sigma = env.tensor('sigma', [n], np_like=not tf, lo=0., strict=True, dtype=dt)
    r = env.tensor('r', [n], np_like=not tf, lo=0., strict=True, dtype=dt)
    return x, mu, sigma, r


def impl(env, name, tf):
    m = env.mod(BF)
    return getattr(m, ('tf_' if tf else '') + name)


@contract(CONTRACTS, [BF + '.gauss', BF + '.tf_gauss', BF + '.log_gauss', BF + '.tf_log_gauss'])
def gauss(env):
    """gauss is the normal density, log_gauss its logarithm, in both back ends"""
    L = env.np
    for tf in (False, True):
        x, mu, s, r = args(env, tf)
        X, M, G = env.ref(x), env.ref(mu), env.ref(s)
        want = -(X - M) * (X - M) / (2 * G * G) - L.log(G) - L.log(2 * L.pi) / 2
        env.equal('gauss is the normal density (tf=%s)' % tf, impl(env, 'gauss', tf)(x, mu, s), L.exp(want))
        env.equal('log_gauss is the log of the normal density (tf=%s)' % tf, impl(env, 'log_gauss', tf)(x, mu, s), want)


def log_ag(L, x, mu, s, r):
    norm = L.log(2.) - L.log(2 * L.pi) / 2 - L.log(s) - L.log(r + 1)
    return norm + L.where(x < mu, -(x - mu) ** 2 / (2 * s * s), -(x - mu) ** 2 / (2 * s * s * r * r))


@contract(CONTRACTS, [BF + '.asymmetric_gauss', BF + '.tf_asymmetric_gauss', BF + '.log_asymmetric_gauss', BF + '.tf_log_asymmetric_gauss'])
def asymmetric_gauss(env):
    """the two-sided Gaussian with widths sigma and r*sigma, and its logarithm"""
    L = env.np
    for tf in (False, True):
        x, mu, s, r = args(env, tf)
        want = log_ag(L, env.ref(x), env.ref(mu), env.ref(s), env.ref(r))
        env.equal('density (tf=%s)' % tf, impl(env, 'asymmetric_gauss', tf)(x, mu, s, r), L.exp(want))
        env.equal('log density (tf=%s)' % tf, impl(env, 'log_asymmetric_gauss', tf)(x, mu, s, r), want)


@contract(CONTRACTS, [BF + '.asymmetric_gauss_cdf', BF + '.tf_asymmetric_gauss_cdf', BF + '.asymmetric_gauss'])
def asymmetric_cdf(env):
    """the cdf lies in [0, 1], is the integral of the density (its derivative is
    the density), and passes 1/(1+r) at the mode"""
    L = env.np
    for tf in (False, True):
        x, mu, s, r = args(env, tf)
        f = impl(env, 'asymmetric_gauss_cdf', tf)
        got = f(x, mu, s, r)
        env.leq('cdf >= 0 (tf=%s)' % tf, 0 * env.ref(got), got)
        env.leq('cdf <= 1 (tf=%s)' % tf, got, 0 * env.ref(got) + 1)
        env.equal('cdf at the mode (tf=%s)' % tf, f(mu, mu, s, r), 1 / (1 + env.ref(r)))
        env.equal('derivative of the cdf is the density (tf=%s)' % tf,
                  env.deriv(lambda y: f(y, mu, s, r), x),
                  L.exp(log_ag(L, env.ref(x), env.ref(mu), env.ref(s), env.ref(r))), rtol=1e-4, atol=1e-6)


@contract(CONTRACTS, [BF + '.asymmetric_gauss_ppf', BF + '.tf_asymmetric_gauss_ppf', BF + '.asymmetric_gauss_cdf', BF + '.tf_asymmetric_gauss_cdf'])
def asymmetric_ppf(env):
    """the quantile function inverts the cdf"""
    for tf in (False, True):
        x, mu, s, r = args(env, tf)
        n = x.shape[0]
        q = env.tensor('q', [n], np_like=not tf, lo=0.001, hi=0.999, strict=True, dtype='float64')
        i = env.index('i', n)
        y = impl(env, 'asymmetric_gauss_ppf', tf)(q, mu, s, r)
        back = impl(env, 'asymmetric_gauss_cdf', tf)(y, mu, s, r)
        env.equal('cdf(ppf(q)) = q (tf=%s)' % tf, back[i], env.ref(q)[i], rtol=1e-5)


@contract(CONTRACTS, [BF + '.log_negative_binomial', BF + '.tf_log_negative_binomial'])
def negative_binomial(env):
    """log pmf of the negative binomial with mean mu and over-dispersion alpha,
    up to (or including) the normalisation log x!"""
    L = env.np
    lg = env.lib('scipy.special').gammaln
    for tf in (False, True):
        n = env.int('n', 1)
        x = env.tensor('x', [n], np_like=not tf, lo=0., dtype='float64')
        mu = env.tensor('mu', [n], np_like=not tf, lo=0., strict=True, dtype='float64')
        al = env.tensor('alpha', [n], np_like=not tf, lo=0., strict=True, dtype='float64')
        X, M, A = env.ref(x), env.ref(mu), env.ref(al)
        f = impl(env, 'log_negative_binomial', tf)
        k = 1 / A
        want = lg(X + k) - lg(k) + k * (L.log(k) - L.log(k + M)) + X * (L.log(M) - L.log(k + M))
        env.equal('unnormalised (tf=%s)' % tf, f(x, mu, al), want)
        env.equal('normalised (tf=%s)' % tf, f(x, mu, al, add_normalization_term=True), want - lg(X + 1.))
        env.equal('flag off (tf=%s)' % tf, f(x, mu, al, add_normalization_term=False), want)


class Recorder:
    def __init__(self):
        self.calls = []

    def negative_binomial(self, n, p, size=None):
        self.calls.append((n, p, size))
        return 'sample'


@contract(CONTRACTS, [BF + '.sample_from_negative_binomial'])
def negative_binomial_sampling(env):
    """samples are drawn from the distribution with the requested mean and variance"""
    n = env.int('n', 1)
    mu = env.tensor('mu', [n], np_like=True, lo=0., strict=True)
    a = env.tensor('a', [n], np_like=True, lo=0.001, strict=True)
    rng = Recorder()
    f = env.mod(BF).sample_from_negative_binomial
    size = env.choose('size', [None, 7])
    out = f(rng, mu, a, True, size=size)
    env.concrete('one draw, returned', len(rng.calls) == 1 and isinstance(out, str) and rng.calls[0][2] == size)
    r, p, _ = rng.calls[0]
    env.equal('alpha: p is mean over variance', p, 1 / (1 + a * mu))
    env.equal('alpha: r', r * (a * mu * mu + 1e-6), mu * mu)
    f(rng, mu, mu + a, False)
    r, p, _ = rng.calls[1]
    env.equal('variance: p is mean over variance', p, mu / (mu + a))
    env.equal('variance: r', r * (a + 1e-6), mu * mu)


@contract(CONTRACTS, [BF + '.rayleigh', BF + '.tf_rayleigh', BF + '.rayleigh_cdf', BF + '.tf_rayleigh_cdf'])
def rayleigh(env):
    """density and cdf of the Rayleigh distribution; the density is the derivative of the cdf"""
    L = env.np
    for tf in (False, True):
        n = env.int('n', 1)
        x = env.tensor('x', [n], np_like=not tf, lo=0., dtype='float64')
        s = env.tensor('sigma', [n], np_like=not tf, lo=0., strict=True, dtype='float64')
        X, G = env.ref(x), env.ref(s)
        pdf, cdf = impl(env, 'rayleigh', tf), impl(env, 'rayleigh_cdf', tf)
        env.equal('density (tf=%s)' % tf, pdf(x, s), X / (G * G) * L.exp(-X * X / (2 * G * G)))
        env.equal('cdf (tf=%s)' % tf, cdf(x, s), 1 - L.exp(-X * X / (2 * G * G)))
        env.equal('derivative of the cdf is the density (tf=%s)' % tf, env.deriv(lambda y: cdf(y, s), x), pdf(x, s), rtol=1e-4, atol=1e-6)
        env.equal('cdf(0) = 0 (tf=%s)' % tf, cdf(x * 0, s), X * 0)
        env.leq('cdf <= 1 (tf=%s)' % tf, cdf(x, s), X * 0 + 1)
