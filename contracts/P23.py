"""P23: training step and ensemble loss."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass, Names
CONTRACTS = []
B = 'manager.base.BaseModelManager.'


class Model:
    """an ensemble member: variables, and tensors computed from its own data"""

    def __init__(self, env, i, sizes, extra=False):
        self.i, self.env, self.calls = i, env, []
        self.values = [env.tensor('v%d' % i, [s], dtype='float64', lo=-2., hi=2.) for s in sizes]
        self.ref = [env.ref(v) for v in self.values]
        self.trainable_variables = [env.tf.Variable(v) for v in self.values]
        self.sizes = sizes
        self.step = env.tf.constant(i)
        self.unused = extra

    def get_tensors(self, data_batch_dict, is_training, parameter_tensor_name='x_parameters'):
        self.calls.append((data_batch_dict, is_training, parameter_tensor_name))
        return {'model': self.i, 'x': data_batch_dict['x']}


class Loss:
    """loss of model i: (sum over variables of w v^2 + u v) times the data"""

    def __init__(self, env, models):
        self.w = [[[(env.between('w', -1., 1.), env.between('u', -1., 1.)) for _ in range(s)] for s in m.sizes] for m in models]
        self.calls, self.skip = [], False

    def of(self, i, vs, x):
        used = list(range(len(vs)))
        if self.skip:
            used = used[1:]
        return sum(vs[q][e] * vs[q][e] * self.w[i][q][e][0] + vs[q][e] * self.w[i][q][e][1] for q in used for e in range(len(self.w[i][q]))) * x

    def grad(self, i, q, e, vs, x):
        if self.skip and q == 0:
            return 0.
        return (2. * vs[q][e] * self.w[i][q][e][0] + self.w[i][q][e][1]) * x

    def get_loss(self, data_batch_dict, result_tensors, tensors, model=None, parameter_tensor_name='x_parameters', **kw):
        self.calls.append((result_tensors['model'], model, parameter_tensor_name, kw, tensors))
        return self.of(model.i, model.trainable_variables, result_tensors['x'][0])


class Writer:
    def as_default(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def sq(L, x):
    return x * x


def manager(env, sizes):
    base = env.mod('manager.base').BaseModelManager
    models = [Model(env, i, s) for i, s in enumerate(sizes)]
    mgr = subclass(base, models=models, data_handler=Obj(tensors=Names(['y', 'x'])), _logger=NullLog())
    return mgr, models


def reg(L, opt, m):
    r = 0.
    for v, s in zip(m.ref, m.sizes):
        for e in range(s):
            r = r + opt['l1_regularization'] * abs(v[e]) + opt['l2_regularization'] * v[e] * v[e]
    return r


def options(env):
    return dict(l1_regularization=env.pos('l1') if env.flag('use l1') else 0., l2_regularization=env.pos('l2') if env.flag('use l2') else 0.)


@contract(CONTRACTS, [B + 'get_loss', B + 'regularization_loss'], bounded='ensembles of 1 to 3 models with variables of 1 to 3 entries', trials=12)
def ensemble_loss(env):
    """the loss is the sum over all ensemble members of their own loss plus the
    L1 and L2 norms of their own variables times the configured strengths"""
    mgr, models = manager(env, env.choose('ensemble', [((2,),), ((1, 2), (2, 1)), ((1,), (3,), (1, 1))]))
    loss, opt = Loss(env, models), options(env)
    training = env.flag('training')
    x, y = env.tensor('x', [1], dtype='float64'), env.tensor('y', [1], dtype='float64')
    kw = dict(summary_writer=Writer()) if env.flag('summary') and not env.is_concrete else {}
    name = env.choose('parameter tensor', ['x_parameters', 'p'])
    got = mgr.get_loss((y, x), loss, opt, training, parameter_tensor_name=name, normalize=3, **kw)
    X = env.ref(x)[0]
    env.equal('loss', got, sum(loss.of(m.i, m.ref, X) + reg(env.np, opt, m) for m in models))
    env.concrete('every model is evaluated once', all(len(m.calls) == 1 for m in models))
    env.concrete('with the training switch and parameter tensor', all(m.calls[0][1] == training and m.calls[0][2] == name for m in models))
    env.concrete('with the named data', all(set(m.calls[0][0]) == {'x', 'y'} for m in models))
    env.concrete('each loss belongs to its model', [(c[0], c[1]) for c in loss.calls] == [(m.i, m) for m in models])
    env.concrete('loss options are passed on', all(c[2] == name and c[3] == dict(normalize=3) and c[4] is mgr.data_handler.tensors for c in loss.calls))


class SGD:
    """gradient descent; remembers which variables were updated"""

    def __init__(self, lr):
        self.lr, self.seen = lr, []

    def apply_gradients(self, pairs):
        for g, v in pairs:
            self.seen.append(v)
            if g is not None:
                v.assign_sub(g * self.lr)


@contract(CONTRACTS, [B + 'perform_training_step', B + 'get_loss'], bounded='ensembles of 1 to 2 models with variables of 1 to 2 entries', trials=16)
def training_step(env):
    """a step moves every trainable variable of every model exactly once, by
    the gradient of the returned loss (scaled down if its global norm exceeds
    the configured limit)"""
    env.finite()
    mgr, models = manager(env, env.choose('ensemble', [((2,),), ((1, 1), (2,))]))
    loss = Loss(env, models)
    clip = env.flag('clip')
    opt = options(env) if not clip else dict(l1_regularization=0., l2_regularization=0.)
    if clip:
        opt['clip_gradients_value'] = env.pos('limit')
    elif env.flag('explicitly off'):
        opt['clip_gradients_value'] = None
    if env.flag('remove nan'):
        opt['remove_nan_gradients'] = env.flag('on')
        loss.skip = opt['remove_nan_gradients'] and len(models) == 2 and env.flag('a variable without gradient') and opt['l1_regularization'] == 0. and opt['l2_regularization'] == 0.
    lr = env.pos('rate')
    sgd = SGD(lr)
    type(mgr).optimizer = sgd
    L = env.np
    for m in models:
        for v, s in zip(m.ref, m.sizes):
            for e in range(s):
                env.assume((v[e] > 1e-3) | (v[e] < -1e-3))   # |v| is differentiable
    x = env.tensor('x', [1], dtype='float64', lo=.1, hi=2.)
    got = mgr.perform_training_step((x * 2., x), loss, opt, parameter_tensor_name='p', normalize=4)
    X = env.ref(x)[0]
    env.equal('returned loss', got, sum(loss.of(m.i, m.ref, X) + reg(L, opt, m) for m in models))
    env.concrete('loss options are passed on', all(c[2] == 'p' and c[3] == dict(normalize=4) for c in loss.calls))
    env.concrete('models run in training mode', all(c[1] for m in models for c in m.calls))
    allv = [v for m in models for v in m.trainable_variables]
    env.concrete('every variable once', all(sum(w is v for w in sgd.seen) <= 1 for v in allv) and (loss.skip or len(sgd.seen) == len(allv)))
    grads = {}
    norm2 = 0.
    for m in models:
        for q, s in enumerate(m.sizes):
            for e in range(s):
                v = m.ref[q][e]
                g = loss.grad(m.i, q, e, m.ref, X) + 2. * opt['l2_regularization'] * v + opt['l1_regularization'] * L.where(v > 0, 1., -1.)
                grads[m.i, q, e] = g
                norm2 = norm2 + g * g
    scale = 1.
    if clip:
        norm = L.sqrt(norm2)
        scale = L.where(norm > opt['clip_gradients_value'], opt['clip_gradients_value'] / norm, 1.)
    for m in models:
        for q, s in enumerate(m.sizes):
            for e in range(s):
                env.equal('update of variable %d %d %d' % (m.i, q, e), env.ref(m.trainable_variables[q])[e], m.ref[q][e] - lr * grads[m.i, q, e] * scale)


class Conf:
    def __init__(self, tag):
        self.tag, self.dict = tag, {'tag': tag}

    def is_compatible(self, other):
        return self.tag == other.tag


@contract(CONTRACTS, [B + '_check_model_ensemble_compatibility'], bounded='ensembles of 1 to 3 models, one difference at a time')
def ensemble_compatibility(env):
    """models with different parameters, data transformations or transformation
    constants cannot form an ensemble; equal ones can"""
    base = env.mod('manager.base').BaseModelManager
    mgr = subclass(base, _logger=NullLog())
    n = env.choose('models', [1, 2, 3])
    bad = env.choose('differing model', list(range(1, n)) + [None])
    how = env.choose('difference', ['names', 'config', 'keys', 'array', 'scalar']) if bad is not None else None
    mean = env.arr('mean', [2])
    models = []
    for i in range(n):
        me = i == bad
        data = dict(x_mean=env.np.array(mean), norm=1e-6)
        if me and how == 'array':
            d = env.real('difference')
            env.assume((d > 1e-3) | (d < -1e-3))
            data['x_mean'] = env.np.array([mean[0], mean[1] + d])
        if me and how == 'scalar':
            data['norm'] = 2e-6
        if me and how == 'keys':
            data['more'] = 1.
        models.append(Obj(parameter_names=['a', 'b'] if not (me and how == 'names') else ['b', 'a'],
                          data_trafo=Obj(configuration=Conf('c' if not (me and how == 'config') else 'd'), data=data)))
    if bad is None:
        mgr._check_model_ensemble_compatibility(models)
        env.concrete('accepted', True)
    else:
        env.raises('rejected (%s)' % how, ValueError, lambda: mgr._check_model_ensemble_compatibility(models))
