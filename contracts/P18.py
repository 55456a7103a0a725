"""P18: piecewise learning rate schedules."""
from pyvc.con import contract
CONTRACTS = []
M = 'utils.learning_rate'


class Fake:
    """a phase schedule: rate = offset + slope * (step seen)"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.steps = []

    def __call__(self, step):
        return self.a + self.b * step


def make(env, k, bs):
    m = env.mod(M)
    mk = []
    coef = []

    def load(name):
        def cls(**kw):
            a, b = coef[kw['i']]
            return Fake(a, b)
        return cls
    env.patch(m.misc, 'load_class', load)
    for i in range(k + 1):
        coef.append((env.real('a'), env.real('b')))
    obj = m.MultiLearningRateScheduler(bs, [dict(full_class_string='phase', settings=dict(i=i)) for i in range(k + 1)])
    return obj, coef


def phase_contract(k):
    def phases(env):
        """each phase applies its own schedule, restarted at its lower boundary, on
        the interval (low, high]; the first and last phases are open-ended"""
        b = [env.real('b0')]
        # in runs also phases that are thousands to millions of steps long
        scale = float(env.rng.choice([1., 1., 1e3, 1e6])) if env.is_concrete else 1.
        if env.is_concrete:
            b[0] = abs(b[0]) * scale
        for i in range(1, k):
            b.append(b[-1] + env.pos('w') * scale)
        step = env.real('step')
        if env.is_concrete:
            at = env.rng.randint(k)
            inside = b[at] + env.rng.uniform(0., 1.) * (b[at + 1] - b[at] if at + 1 < k else 2. * scale)
            step = float(env.rng.choice([b[0] - 1.5 * scale, b[0], b[-1], b[-1] + 1.5 * scale, b[at] + .01, .5 * (b[0] + b[-1]), inside, inside]))
            import tensorflow as tf
            b64 = [tf.constant(x, dtype=tf.float64) for x in b]
        else:
            b64 = b
        obj, coef = make(env, k, b64)
        got = obj(env.tf.constant(step, dtype='float64') if env.is_concrete else step)
        L = env.np
        want = coef[-1][0] + coef[-1][1] * (step - b[-1])
        for i in range(k - 1, 0, -1):
            want = L.where(step <= b[i], coef[i][0] + coef[i][1] * (step - b[i - 1]), want)
        want = L.where(step <= b[0], coef[0][0] + coef[0][1] * step, want)
        env.equal('rate with %d boundaries' % k, got, want)
    return phases


for _k in (1, 2, 3, 4):
    contract(CONTRACTS, [M + '.MultiLearningRateScheduler.__call__', M + '.MultiLearningRateScheduler.__init__'],
             name='phases_%d' % _k, bounded='number of boundaries %d; steps, boundaries and schedules are arbitrary' % _k, trials=12)(phase_contract(_k))


@contract(CONTRACTS, [M + '.MultiLearningRateScheduler.__init__', M + '.MultiLearningRateScheduler.get_config'])
def construction(env):
    """one more schedule than boundaries, everything else is rejected; the
    configuration of a schedule rebuilds it"""
    m = env.mod(M)
    made = []

    def load(name):
        def cls(**kw):
            made.append((name, kw))
            return Fake(0., 0.)
        return cls
    env.patch(m.misc, 'load_class', load)
    nb = env.choose('boundaries', [1, 2, 3])
    ns = env.choose('schedules', [0, 1, 2, 3, 4, 5])
    b = [100. * (i + 1) for i in range(nb)]
    st = [dict(full_class_string='c%d' % i, settings=dict(x=i)) for i in range(ns)]
    mk = lambda: m.MultiLearningRateScheduler(b, st)
    if ns != nb + 1:
        env.raises('wrong number of schedules rejected', ValueError, mk)
        return
    o = mk()
    env.concrete('one schedule object per phase, in order', made == [('c%d' % i, dict(x=i)) for i in range(ns)])
    cfg = o.get_config()
    env.concrete('settings returned', cfg['scheduler_settings'] == st)
    env.concrete('complete configuration', set(cfg) == {'boundaries', 'scheduler_settings', 'name'})
    env.equal('boundaries returned', cfg['boundaries'], b)
