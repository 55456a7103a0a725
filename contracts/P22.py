"""P22: covariance estimates."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass, Names
from contracts.P16 import Cache, Trafo, NAME, make_manager
CONTRACTS = []
COV = 'manager.reconstruction.modules.covariance.CovarianceMatrix.'
SM = 'manager.source.SourceManager.'


class Mat:
    """result of a compiled function"""

    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class Scale:
    """data transformer collaborator: the contract of inverse_transform_cov
    (proved below) is cov_ij = s_i cov'_ij s_j"""

    def __init__(self, env, k):
        self.env = env
        self.s = [env.pos('scale') for _ in range(k)]
        self.data = {'tensors': {NAME: Obj(dtype='float64')}}
        self.names = []

    def inverse_transform_cov(self, cov_trafo, tensor_name):
        self.names.append(tensor_name)
        L = self.env.np
        a = L.array(self.s)
        return cov_trafo * L.reshape(a, [-1, 1]) * L.reshape(a, [1, -1])


def mm(a, b, k):
    return [[sum(a[i][m] * b[m][j] for m in range(k)) for j in range(k)] for i in range(k)]


def cov_contract(k):
    def covariance(env):
        """covariance = inverse Hessian at the reconstructed parameters, sandwich =
        cov OPG cov, both back-transformed to physical parameters if the fit was
        done in normalised ones; the same for the optimiser's own estimate"""
        C = env.mod('manager.reconstruction.modules.covariance')
        L = env.np
        in_trafo, has_inv, todense = env.flag('in_trafo'), env.flag('optimiser has an inverse Hessian'), env.flag('as L-BFGS product')
        hess = env.arr('hessian', [k, k])
        opg = env.arr('opg', [k, k])
        inv = env.arr('hess_inv', [k, k])
        # Hessian regular
        if k == 1:
            det = hess[0, 0]
        elif k == 2:
            det = hess[0, 0] * hess[1, 1] - hess[0, 1] * hess[1, 0]
        env.assume(det > 1e-2)
        calls, sett = [], []

        def mk(which, val):
            def get(**settings):
                sett.append((which, settings))

                def f(parameters_trafo=None, data_batch=None, seed=None):
                    calls.append((which, parameters_trafo, data_batch, seed))
                    return Mat(val)
                f.__name__ = which
                return f
            return get
        trafo = Scale(env, k)
        mgr = Obj(data_trafo=trafo, data_handler=Obj(get_data_set_signature=lambda: 'sig', tensors=Names([NAME])),
                  get_hessian_function=mk('hessian_function', hess), get_opg_estimate_function=mk('opg_estimate_function', opg))
        mod = C.CovarianceMatrix(mgr, 'loss', Cache(), [True] * k, 'reco', minimize_in_trafo_space=in_trafo, parameter_tensor_name=NAME)
        for w, st in sett:
            env.concrete('%s is configured like the fit' % w, st['minimize_in_trafo_space'] == in_trafo and st['loss_module'] == 'loss' and
                         list(st['fit_paramater_list']) == [True] * k and st['parameter_tensor_name'] == NAME)
        p, pt = env.arr('p', [1, k]), env.arr('pt', [1, k])
        obj = Obj()
        if has_inv:
            if todense:
                P = C.LbfgsInvHessProduct
                obj.hess_inv = type('Prod', (P,), dict(__init__=lambda s: None, todense=lambda s: inv))()
            else:
                obj.hess_inv = inv
        out = mod.execute('batch', {'reco': dict(result=p, result_trafo=pt, result_object=obj), 'other': {}})
        env.concrete('evaluated once at the best fit', sorted(c[0] for c in calls) == ['hessian_function', 'opg_estimate_function'] and
                     all(c[1] is pt and c[2] == 'batch' and c[3] is p for c in calls))
        cov = out['cov_trafo']
        prod = mm([[hess[i, j] for j in range(k)] for i in range(k)], [[cov[i, j] for j in range(k)] for i in range(k)], k)
        for i in range(k):
            for j in range(k):
                env.equal('Hessian times covariance is one %d%d' % (i, j), prod[i][j], 1. if i == j else 0., atol=1e-5)
        M = lambda x: [[x[i, j] for j in range(k)] for i in range(k)]
        sand = mm(mm(M(cov), M(opg), k), M(cov), k)
        s = trafo.s if in_trafo else [1.] * k
        pairs = [('cov_sand_trafo', sand, [1.] * k), ('cov', M(cov), s), ('cov_sand', sand, s)]
        if has_inv:
            isand = mm(mm(M(inv), M(opg), k), M(inv), k)
            pairs += [('cov_fit_trafo', M(inv), [1.] * k), ('cov_fit', M(inv), s), ('cov_sand_fit_trafo', isand, [1.] * k), ('cov_sand_fit', isand, s)]
        else:
            env.concrete('no optimiser covariance', 'cov_fit' not in out and 'cov_sand_fit' not in out)
        for name, want, sc in pairs:
            for i in range(k):
                for j in range(k):
                    env.equal('%s %d%d' % (name, i, j), out[name][i, j], want[i][j] * sc[i] * sc[j])
        env.concrete('transformed as the parameter tensor', set(trafo.names) <= {NAME})
    return covariance


for k in (1, 2):
    contract(CONTRACTS, [COV + '__init__', COV + 'execute'], name='covariance_%d' % k, bounded='%d fitted parameters, any matrices' % k)(cov_contract(k))


@contract(CONTRACTS, [COV + '__init__'])
def partial_fit_rejected(env):
    """covariances are only computed if every parameter is fitted"""
    C = env.mod('manager.reconstruction.modules.covariance')
    fit = [env.flag('fit') for _ in range(3)]
    env.assume(not all(fit))
    env.raises('rejected', NotImplementedError, lambda: C.CovarianceMatrix(Obj(), 'loss', Cache(), fit, 'reco'))


class Terms:
    """a loss with several terms per event: known smooth functions of the
    parameters (products, squares, exponentials)"""

    def __init__(self, env, k, n):
        self.env, self.k, self.n = env, k, n
        self.w = [[env.between('w', -1., 1.) for _ in range(k)] for _ in range(n)]
        self.u = [[env.between('u', -1., 1.) for _ in range(k)] for _ in range(n)]
        self.calls = []

    def term(self, p, e, exp):
        lin = sum(p[i] * self.w[e][i] for i in range(self.k))
        quad = sum(p[i] * p[j] * self.u[e][i] for i in range(self.k) for j in range(i, self.k))
        return lin * lin + quad + exp(lin * .5)

    def grad(self, p, e, exp):
        lin = sum(p[i] * self.w[e][i] for i in range(self.k))
        out = []
        for m in range(self.k):
            q = sum(p[j] * self.u[e][i] if m == i and m != j else p[i] * self.u[e][i] if m == j and m != i else 2 * p[m] * self.u[e][i]
                    for i in range(self.k) for j in range(i, self.k) if m in (i, j))
            out.append(2 * lin * self.w[e][m] + q + exp(lin * .5) * .5 * self.w[e][m])
        return out

    def hess(self, p, e, exp):
        lin = sum(p[i] * self.w[e][i] for i in range(self.k))
        out = [[2 * self.w[e][a] * self.w[e][b] + exp(lin * .5) * .25 * self.w[e][a] * self.w[e][b] for b in range(self.k)] for a in range(self.k)]
        for i in range(self.k):
            for j in range(i, self.k):
                if i == j:
                    out[i][i] = out[i][i] + 2 * self.u[e][i]
                else:
                    out[i][j] = out[i][j] + self.u[e][i]
                    out[j][i] = out[j][i] + self.u[e][i]
        return out

    def get_loss(self, data_batch_dict, result_tensors, tensors, model=None, parameter_tensor_name='x_parameters', reduce_to_scalar=True, normalize_by_total_charge=True, sort_loss_terms=True, **kw):
        self.calls.append((reduce_to_scalar, normalize_by_total_charge, sort_loss_terms, kw))
        tf = self.env.tf
        par = result_tensors['par']
        p = [par[0, i] for i in range(self.k)]
        ts = [self.term(p, e, tf.exp) for e in range(self.n)]
        if reduce_to_scalar:
            return sum(ts)
        return [tf.stack(ts[:1], axis=0), tf.stack(ts[1:], axis=0)]


class PassModel:
    def get_tensors(self, data_batch_dict, is_training, parameter_tensor_name='x_parameters', **kw):
        return {'par': data_batch_dict[parameter_tensor_name]}


def setup(env, k, n):
    trafo = Trafo(env, k)
    loss = Terms(env, k, n)
    mgr = make_manager(env, trafo, [PassModel()])
    x = env.tensor('x', [1, k], dtype='float64', lo=-1., hi=1.)
    X = env.ref(x)
    return trafo, loss, mgr, x, [X[0, i] for i in range(k)]


@contract(CONTRACTS, [SM + 'get_loss_and_gradients_function'], bounded='3 parameters, a loss of 2 smooth terms with arbitrary coefficients')
def gradients(env):
    """the gradient handed to optimisers is the derivative of the returned loss
    with respect to the fitted (normalised) parameters"""
    k, n = 3, 2
    trafo, loss, mgr, x, X = setup(env, k, n)
    in_trafo = env.flag('minimize_in_trafo_space')
    exp = env.np.exp
    spec = (env.tf.TensorSpec([1, k], 'float64'), (env.tf.TensorSpec([1], 'float64'),)) if env.is_concrete else None
    batch = (env.tensor('charge', [1], dtype='float64'),)
    mgr.data_handler.tensors.names = ['x_dom_charge']
    f = mgr.get_loss_and_gradients_function(input_signature=spec, loss_module=loss, fit_paramater_list=[True] * k, minimize_in_trafo_space=in_trafo,
                                            seed=None, parameter_tensor_name=NAME)
    v, g = f(x, batch)
    phys = [trafo.inv(X[i], i) if in_trafo else X[i] for i in range(k)]
    env.equal('loss', v, sum(loss.term(phys, e, exp) for e in range(n)))
    gr = [loss.grad(phys, e, exp) for e in range(n)]
    for i in range(k):
        j = 1 / trafo.a[i] if in_trafo else 1.
        env.equal('gradient %d' % i, env.ref(g)[0, i], sum(q[i] for q in gr) * j)


@contract(CONTRACTS, [SM + 'get_hessian_function'], bounded='2 parameters, a loss of 2 smooth terms with arbitrary coefficients')
def hessian(env):
    """the Hessian is the matrix of second derivatives of the unnormalised loss"""
    k, n = 2, 2
    trafo, loss, mgr, x, X = setup(env, k, n)
    in_trafo = env.flag('minimize_in_trafo_space')
    exp = env.np.exp
    spec = (env.tf.TensorSpec([1, k], 'float64'), (env.tf.TensorSpec([1], 'float64'),)) if env.is_concrete else None
    batch = (env.tensor('charge', [1], dtype='float64'),)
    mgr.data_handler.tensors.names = ['x_dom_charge']
    f = mgr.get_hessian_function(input_signature=spec, loss_module=loss, fit_paramater_list=[True] * k, minimize_in_trafo_space=in_trafo, seed=None, parameter_tensor_name=NAME)
    h = env.ref(f(x, batch))
    phys = [trafo.inv(X[i], i) if in_trafo else X[i] for i in range(k)]
    hs = [loss.hess(phys, e, exp) for e in range(n)]
    for i in range(k):
        for j in range(k):
            s = 1 / (trafo.a[i] * trafo.a[j]) if in_trafo else 1.
            env.equal('second derivative %d%d' % (i, j), h[i, j], sum(q[i][j] for q in hs) * s)
    env.concrete('of the plain likelihood', all(c[:3] == (True, False, False) for c in loss.calls))


@contract(CONTRACTS, [SM + 'get_opg_estimate_function'], bounded='2 parameters, a loss of 3 smooth terms with arbitrary coefficients', trials=20)
def outer_products(env):
    """the outer product estimate sums the outer products of the gradients of
    all individual loss terms"""
    k, n = 2, 3
    trafo, loss, mgr, x, X = setup(env, k, n)
    in_trafo = env.flag('minimize_in_trafo_space')
    exp = env.np.exp
    spec = (env.tf.TensorSpec([1, k], 'float64'), (env.tf.TensorSpec([1], 'float64'),)) if env.is_concrete else None
    batch = (env.tensor('charge', [1], dtype='float64'),)
    mgr.data_handler.tensors.names = ['x_dom_charge']
    f = mgr.get_opg_estimate_function(input_signature=spec, loss_module=loss, fit_paramater_list=[True] * k, minimize_in_trafo_space=in_trafo, seed=None, parameter_tensor_name=NAME)
    o = env.ref(f(x, batch))
    phys = [trafo.inv(X[i], i) if in_trafo else X[i] for i in range(k)]
    gs = [loss.grad(phys, e, exp) for e in range(n)]
    for i in range(k):
        for j in range(k):
            s = 1 / (trafo.a[i] * trafo.a[j]) if in_trafo else 1.
            env.equal('outer product %d%d' % (i, j), o[i, j], sum(q[i] * q[j] for q in gs) * s)
    env.concrete('of the plain likelihood terms', all(c[:3] == (False, False, False) for c in loss.calls))


@contract(CONTRACTS, ['data.trafo.DataTransformer.inverse_transform_cov'], bounded='3 parameters, any matrix')
def back_transformation(env):
    """covariances in normalised parameters are rescaled by the standard
    deviation of both parameters"""
    D = env.mod('data.trafo')
    k = 3
    T = env.mod('data.tensor')
    std, mean = env.arr('std', [k], lo=0., strict=True), env.arr('mean', [k])
    nc = env.choose('norm_constant', [0., 1e-6])
    tensor = Obj(shape=[-1, k], trafo_batch_axis=0, trafo_log=None, name=NAME, dtype='float64')

    class L(dict):
        names = [NAME]
    d = subclass(D.DataTransformer, is_configured=True, data={'tensors': L({NAME: tensor}), NAME + '_std': std, NAME + '_mean': mean, 'norm_constant': nc,
                                                              'np_float_dtype': env.np.float64, 'tf_float_dtype': env.tf.float64}, _logger=NullLog())
    cov = env.arr('cov', [k, k])
    use_tf = env.flag('tensor')
    out = env.ref(d.inverse_transform_cov(env.tf.constant(cov) if use_tf else cov, NAME))
    for i in range(k):
        for j in range(k):
            env.equal('cov %d%d' % (i, j), out[i, j], cov[i, j] * (std[i] + nc) * (std[j] + nc))
