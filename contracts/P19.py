"""P19: the spherical minimiser."""
from pyvc.con import contract
from contracts.common import Obj, OutsideContract
CONTRACTS = []
F = 'utils.spherical_opt.'
FIELDS = ['zen', 'az', 'x', 'y', 'z', 'sinzen', 'coszen', 'sinaz', 'cosaz']


def symbolic_numpy(env):
    """the module under contract, its arrays holding symbolic values (proof)"""
    m = env.mod('utils.spherical_opt')
    if not env.is_concrete:
        import numpy
        from contracts import objnp
        from pyvc import sym
        sym.ctx().world_np = env.np
        env.patch(m, 'np', objnp.Numpy())
        env.patch(m, 'SPHER_T', numpy.dtype([(f, object) for f in FIELDS]))
    return m


class Search:
    """ghost state of one minimisation: the loss is an arbitrary function, all
    evaluations are counted and their minimum is known"""

    def __init__(self, env, m, n, spherical, n_dim):
        self.env, self.m, self.n, self.n_dim = env, m, n, n_dim
        self.spherical = spherical
        self.az, self.zen = [a for a, _ in spherical], [b for _, b in spherical]
        self.cart = [i for i in range(n_dim) if i not in self.az + self.zen]
        self.count, self.best = 0, None
        self.names = None
        self.stop_only = self.leave = False
        self.options, self.final = {}, None

    # the loss
    def value(self, p):
        from pyvc import sym
        from pyvc.sym import S
        return S(sym.rfun('loss', *[sym.as_real(sym.to_z3(v)) for v in p]))

    def evaluate(self, p, what='evaluated'):
        """loss of one point, which has to be a valid one"""
        from contracts.objnp import ite
        env = self.env
        p = list(p)
        env.concrete('%s point has all coordinates' % what, len(p) == self.n_dim)
        for a, b in self.spherical:
            self.valid('%s direction is valid' % what, p[b], p[a])
        v = self.value(p)
        self.count = self.count + 1
        self.best = v if self.best is None else ite(v < self.best, v, self.best)
        return v

    def valid(self, name, zen, az):
        import math
        env = self.env
        env.prove(name, (zen >= 0) & (zen <= math.pi) & (az >= 0) & (az <= 2 * math.pi))

    def func(self, p):
        if self.leave:      # the loop goes on: not of interest here
            from pyvc import sym
            raise sym.Infeasible()
        return self.evaluate(p)

    def batch_func(self, x):
        from contracts.objnp import obj
        return obj([self.evaluate(p) for p in x])

    # contracts of the functions on directions
    def record(self, r):
        """r is a complete direction: angles, vector and their functions belong
        together"""
        from pyvc import sym
        from pyvc.sym import S
        return S(sym.uf('direction', *([sym.RS] * len(FIELDS) + [sym.BS]))(*[sym.as_real(sym.to_z3(r[f])) for f in FIELDS]))

    def directions(self, name, *arrays):
        """precondition of the functions on directions"""
        import numpy as np
        for a in arrays:
            for i in np.ndindex(*a.shape):
                self.env.prove('%s gets complete directions' % name, self.record(a[i]))

    def complete(self, out, name, args):
        """out becomes the direction which the function `name` gives for args"""
        import math
        from pyvc import sym
        from pyvc.sym import S
        env = self.env
        args = [sym.as_real(sym.to_z3(a)) for a in args]
        vals = {f: S(sym.rfun('%s.%s' % (name, f), *args)) for f in FIELDS}
        env.assume(self.record(vals))
        env.assume((vals['zen'] >= 0) & (vals['zen'] <= math.pi) & (vals['az'] >= 0) & (vals['az'] <= 2 * math.pi))
        return vals

    def put(self, arr, i, vals):
        for f in FIELDS:
            arr[f][i] = vals[f]

    def fill_from_spher(self, s):
        import numpy as np
        from pyvc import sym
        from pyvc.sym import S
        for i in np.ndindex(*s.shape):
            a = [sym.as_real(sym.to_z3(s[i][f])) for f in ('zen', 'az')]
            vals = {f: S(sym.rfun('spher.' + f, *a)) for f in FIELDS}
            vals.update(zen=s[i]['zen'], az=s[i]['az'])
            self.env.assume(self.record(vals))
            self.put(s, i, vals)

    def fill_from_cart(self, s):
        import numpy as np
        for i in np.ndindex(*s.shape):
            self.put(s, i, self.complete(s, 'cart', [s[i][f] for f in 'xyz']))

    def reflect(self, old, centroid, new):
        import numpy as np
        self.directions('reflect', old, centroid)
        self.env.concrete('directions of one shape are reflected', np.broadcast_shapes(old.shape, centroid.shape) == new.shape)
        old, centroid = np.broadcast_to(old, new.shape), np.broadcast_to(centroid, new.shape)
        for i in np.ndindex(*new.shape):
            self.put(new, i, self.complete(new, 'reflect', [q[i][f] for q in (old, centroid) for f in ('zen', 'az')]))

    def centroid(self, cart_coords, sph_coord, axis=0):
        import numpy as np
        from contracts.objnp import OA, Numpy
        self.directions('centroid', sph_coord)
        s = np.moveaxis(sph_coord, axis, -1)
        out = np.zeros(s.shape[:-1], dtype=self.m.SPHER_T).view(OA)
        for i in np.ndindex(*out.shape):
            self.put(out, i, self.complete(out, 'centroid%d' % s.shape[-1], [q[f] for q in s[i] for f in ('zen', 'az')]))
        if 0 in cart_coords.shape:
            mean = np.zeros([d for k, d in enumerate(cart_coords.shape) if k != axis], dtype=object).view(OA)
        else:
            mean = Numpy.mean(cart_coords, axis)
        return mean, out

    def angular_dist(self, p1, p2):
        from contracts.objnp import pointwise
        from pyvc import sym
        from pyvc.sym import S
        return pointwise(lambda *a: S(sym.rfun('distance', *[sym.as_real(sym.to_z3(v)) for v in a])), p1['zen'], p1['az'], p2['zen'], p2['az'])

    # the loop
    def range(self, *a):
        from pyvc.sym import S
        if len(a) == 1 and isinstance(a[0], S):
            self.env.prove('at most max_iter + 1 iterations', a[0] == self.max_iter + 1)
            return self
        return range(*a)

    def roles(self, st):
        """the arrays of the state, told apart by their shapes"""
        from contracts.objnp import OA
        want = dict(fvals=((self.n,), False), x=((self.n, self.n_dim), False), s_cart=((self.n, len(self.cart)), False), s_spher=((self.n, len(self.spherical)), True))
        if self.names is not None:      # as found before the loop
            out = {r: st[k] for r, k in self.names.items()}
            for r, (shape, rec) in want.items():
                if not isinstance(out[r], OA) or out[r].shape != shape or bool(out[r].dtype.names) != rec:
                    raise OutsideContract('another kind of array as ' + r)
            return out, []
        arrays = {}
        for k, v in st.items():
            if isinstance(v, OA) and not any(v is q for q in self.inputs):
                arrays.setdefault(id(v), (k, v))
        out, self.names = {}, {}
        for r, (shape, rec) in want.items():
            c = [kv for kv in arrays.values() if kv[1].shape == shape and bool(kv[1].dtype.names) == rec]
            if len(c) > 1:
                c = [kv for kv in c if kv[0] == r]
            if len(c) != 1:
                raise OutsideContract('%d arrays in the role of %s' % (len(c), r))
            self.names[r], out[r] = c[0]
        return out, [v for _, v in arrays.values() if not any(v is q for q in out.values())]

    def invariant(self, do, when, st, q):
        """do: prove or assume"""
        from contracts.objnp import every, some
        P = lambda name, e: self.env.prove('%s %s' % (name, when), e) if do else self.env.assume(e)
        f, x = list(q['fvals']), q['x']
        R = range(self.n)
        P('the value of every point is its loss', every([f[i] == self.value(x[i]) for i in R]))
        P('no point is better than the best evaluated one', every([f[i] >= self.best for i in R]))
        P('coordinates agree', every([x[i, c] == q['s_cart'][i, k] for i in R for k, c in enumerate(self.cart)]
                                     + [e for i in R for k, (a, b) in enumerate(self.spherical) for e in (x[i, a] == q['s_spher'][i, k]['az'], x[i, b] == q['s_spher'][i, k]['zen'])]))
        P('directions are complete', every([self.record(q['s_spher'][i, k]) for i in R for k in range(len(self.spherical))]))
        P('the best evaluated point is kept', some([f[i] == self.best for i in range(self.n)]))
        for k in self.counters:
            P('evaluations are counted', st[k] == self.count)
        for k in self.flags:
            P('no decision to stop', st[k] == -1)

    def vc_hoare(self, body, get, set_, names):
        import dis
        import numpy as np
        from pyvc import sym
        from pyvc.sym import S
        env = self.env
        st = get()
        ins = list(dis.get_instructions(body))
        assigned = {i.argval for i in ins if i.opname == 'STORE_DEREF'}
        target = [b.argval for a, b in zip(ins, ins[1:]) if a.opname == 'LOAD_FAST' and a.argval == '__vc_x']
        q, other = self.roles(st)
        scalars = [k for k in sorted(assigned & set(names)) if k in st and (isinstance(st[k], (int, float, S)) and not isinstance(st[k], bool))]
        self.counters = [k for k in scalars if isinstance(st[k], (int, S)) and (st[k] is self.count or (isinstance(st[k], int) and st[k] == self.count))]
        self.flags = [k for k in scalars if k == 'stopping_flag']
        self.invariant(True, 'before the first iteration', st, q)
        # an arbitrary state that satisfies the invariant
        fixed = [v for v in other if not all(isinstance(e, float) for e in v.ravel().view(np.ndarray))]
        for r in list(q.values()) + [v for v in other if not any(v is w for w in fixed)]:
            for f in r.dtype.names or (None,):
                v = r[f] if f else r
                for i in np.ndindex(*v.shape):
                    v[i] = env.real('state')
        self.best = env.real('best')
        self.count = env.int('count', 1)
        new = {}
        for k in scalars:
            new[k] = env.int(k) if isinstance(st[k], int) or sym.to_z3(st[k]).sort() == sym.IS else env.real(k)
        if len(target) == 1:
            new[target[0]] = env.int('iteration', 0)
        set_(new)
        st = get()
        self.invariant(False, '', st, q)
        if not env.flag('another iteration'):
            return None
        frame = [(v, v.copy()) for v in self.inputs + fixed]
        if self.stop_only:
            self.leave = True
        r = body(new[target[0]] if len(target) == 1 else env.int('iteration', 0))
        for v, old in frame:
            env.concrete('inputs are left as they are', all(a is b or (not isinstance(a, S) and a == b) for a, b in zip(v.ravel().view(np.ndarray), old.ravel().view(np.ndarray))))
        self.final = self.roles(get())[0] if r is not None else None
        if r is None:
            st = get()
            q2, _ = self.roles(st)
            self.invariant(True, 'after an iteration', st, q2)
            raise sym.Infeasible()
        return r

    def run(self, method, batch_size, **options):
        """minimise from arbitrary valid points"""
        import math
        from contracts.objnp import obj
        env, m = self.env, self.m
        start = obj([[env.real('p%d' % k) for k in range(self.n_dim)] for _ in range(self.n)])
        for p in start:
            for a, b in self.spherical:
                env.assume((p[b] >= 0) & (p[b] <= math.pi) & (p[a] >= 0) & (p[a] <= 2 * math.pi))
        self.inputs = [start] + [v for v in options.values() if hasattr(v, 'ravel')]
        self.max_iter = env.int('max_iter', 0)
        for k in ('fill_from_spher', 'fill_from_cart', 'reflect', 'centroid', 'angular_dist', 'range'):
            env.patch(m, k, getattr(self, k))
        env.patch(m, 'print', lambda *a, **k: None)
        self.start = start
        return m.spherical_opt(self.func if batch_size == 1 else self.batch_func, method, start, spherical_indices=self.spherical, batch_size=batch_size,
                               max_iter=self.max_iter, rand=self, **options)

    # random numbers
    def choice(self, n, size=None, replace=True, **k):
        import numpy as np
        from contracts.objnp import OA
        env = self.env
        out = np.empty(size if size is not None else (), dtype=object).view(OA)
        env.concrete('enough points to choose from', replace or out.size <= n)
        seen = []
        for i in np.ndindex(*out.shape):
            v = env.int('choice', 0, n)
            if not replace:
                for w in seen:
                    env.assume(v != w)
            seen.append(v)
            out[i] = v
        return out if out.shape else out[()]

    def uniform(self, lo=0, hi=1, size=None):
        import numpy as np
        from contracts.objnp import OA
        out = np.empty(size if size is not None else (), dtype=object).view(OA)
        for i in np.ndindex(*out.shape):
            v = self.env.real('uniform')
            self.env.assume((v >= lo) & (v < hi))
            out[i] = v
        return out if out.shape else out[()]

    def __getattr__(self, k):
        if k.startswith('_') or k in ('final', 'counters', 'flags', 'inputs'):
            raise AttributeError(k)
        raise OutsideContract('random number generator: ' + k)


def symbolic_search(env, method, n, spherical, n_dim, batch_size):
    m = symbolic_numpy(env)
    s = Search(env, m, n, spherical, n_dim)
    env.finite()
    env.solver_first()
    r = s.run(method, batch_size, fstdthresh=env.real('fstdthresh'), max_calls=env.int('max_calls', 1), max_noimprovement=env.int('max_noimprovement', 1))
    env.prove('smallest loss of all evaluated points', r['fun'] == s.best)
    env.prove('at that point', s.value(r['x']) == r['fun'])
    env.prove('number of evaluations', r['n_calls'] == s.count)
    f = list(r['final_simplex'][1])
    for i in range(n):
        env.prove('final values belong to the final points', s.value(r['final_simplex'][0][i]) == f[i])


class Recorder:
    """a random function and what was asked of it"""

    def __init__(self, env, n_dim):
        np = env.np
        self.env, self.points, self.values = env, [], []
        self.w, self.c = np.asarray(env.arr('w', (3, n_dim))), np.asarray(env.arr('c', (n_dim,)))
        self.scale = env.choose('scale', [1., 100., 1e-3])

    def value(self, p):
        np = self.env.np
        p = np.asarray(p, dtype=float)
        return float(self.scale * (np.sum((p - self.c) ** 2) + np.sum(np.cos(self.w @ p)) + np.sum(np.abs(p)) * 0.1))

    def func(self, p):
        self.points.append(self.env.np.array(p))
        self.values.append(self.value(p))
        return self.values[-1]

    def batch_func(self, x):
        return self.env.np.array([self.func(p) for p in x])


def real_search(env, method, spherical, n_dim, batch_size, **options):
    """the minimiser on a random function"""
    np, m = env.np, env.mod('utils.spherical_opt')
    if method == 'Nelder-Mead':
        n = n_dim + 1
    else:
        n = max(n_dim * batch_size + 1 + env.choose('more points', [0, 3, 10]), n_dim + 1)
    rec = Recorder(env, n_dim)
    start = np.array(np.asarray(env.arr('start', (n, n_dim))), dtype=float)
    for a, b in spherical:
        start[:, a] = np.mod(start[:, a], 2 * np.pi)
        start[:, b] = np.mod(start[:, b], np.pi)
    given = start.copy()
    rand = np.random.default_rng(env.choose('seed', list(range(1000))))
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        r = m.spherical_opt(rec.func if batch_size == 1 else rec.batch_func, method, start, spherical_indices=spherical, batch_size=batch_size, rand=rand, **options)
    env.concrete('the initial points are left as they are', np.array_equal(start, given))
    env.concrete('smallest loss of all evaluated points', r['fun'] == min(rec.values))
    env.concrete('at that point', rec.value(r['x']) == r['fun'])
    env.concrete('number of evaluations', r['n_calls'] == len(rec.values))
    env.concrete('final values belong to the final points', all(rec.value(p) == v for p, v in zip(*r['final_simplex'])))
    P = np.array(rec.points)
    for a, b in spherical:
        env.concrete('evaluated directions are valid', bool(np.all((P[:, a] >= 0) & (P[:, a] <= 2 * np.pi + 1e-6) & (P[:, b] >= 0) & (P[:, b] <= np.pi + 1e-6))))
    env.concrete('initial points are evaluated', np.array_equal(P[:n], given))
    return r, rec


def criteria(env, r, spherical, n_dim, options):
    """what the reported reason to stop stands for"""
    np = env.np
    x, f = r['final_simplex']
    flag = r['stopping_flag']
    env.concrete('success is convergence', r['success'] == (flag > 0))
    if flag == 0:
        env.concrete('calls are used up', r['n_calls'] >= options['max_calls'])
    if flag == -1:
        env.concrete('iterations are used up', r['nit'] == options['max_iter'])
    env.concrete('iterations are limited', r['nit'] <= options['max_iter'])
    if flag == 1:
        env.concrete('losses agree', np.std(f) < options['fstdthresh'])
    if flag == 3:
        cart = [i for i in range(n_dim) if not any(i in p for p in spherical)]
        for k, t in enumerate(options.get('cstdthresh') if options.get('cstdthresh') is not None else []):
            env.concrete('coordinates agree', t <= 0 or np.std(x[:, cart[k]]) < t)
        for (a, b), t in zip(spherical, options.get('sstdthresh') if options.get('sstdthresh') is not None else []):
            if t <= 0:
                continue
            v = np.stack([np.sin(x[:, b]) * np.cos(x[:, a]), np.sin(x[:, b]) * np.sin(x[:, a]), np.cos(x[:, b])], 1)
            c = v.mean(0) / np.linalg.norm(v.mean(0))
            d = 2 * np.arcsin(np.clip(np.linalg.norm(v - c, axis=1) / 2, 0, 1))
            env.concrete('directions agree', np.sqrt(np.sum(d ** 2) / (len(d) - 1)) < t * 1.01 + 1e-3)


ANY = 'any number of iterations; %s'
SIZES = {
    'nelder_mead': [('Nelder-Mead', 4, [[1, 2]], 3, 1), ('Nelder-Mead', 3, [], 2, 1), ('Nelder-Mead', 3, [[1, 0]], 2, 1)],
    'nelder_mead_two_directions': [('Nelder-Mead', 6, [[0, 1], [4, 3]], 5, 1)],
    'random_search': [('CRS2', 4, [[1, 2]], 3, 1), ('CRS2', 6, [[1, 2]], 3, 1), ('CRS2', 3, [], 2, 1), ('CRS2', 5, [[1, 0]], 2, 1), ('CRS2', 6, [[0, 1], [4, 3]], 5, 1)],
    'random_search_in_batches': [('CRS2', 5, [[0, 1]], 2, 2), ('CRS2', 7, [[1, 2]], 3, 2), ('CRS2', 6, [], 2, 2)],
}


def add(name, cases):
    def f(env):
        method, n, sph, d, b = cases[env.choose('size', list(range(len(cases))))]
        if env.is_concrete:
            o = dict(max_iter=env.choose('max_iter', [0, 1, 2, 5, 30, 200]))
            if env.flag('limited calls'):
                o['max_calls'] = env.choose('max_calls', [1, 12, 40])
            o['fstdthresh'] = env.choose('fstdthresh', [-1., 1e-3, 1e-1])
            r, _ = real_search(env, method, sph, d, b, **o)
            criteria(env, r, sph, d, o)
            return
        symbolic_search(env, method, n, sph, d, b)
    f.__doc__ = 'the best evaluated point is returned with its loss, all evaluated directions are valid'
    contract(CONTRACTS, [F + 'spherical_opt', F + 'find_replacements'], name=name, time=110,
             bounded='any number of iterations; %s points' % ', '.join('%d in %d dimensions' % (c[1], c[3]) for c in cases))(f)


for _n, _c in SIZES.items():
    add(_n, _c)


def square(x):
    """some function (the same one wherever it is used)"""
    from contracts.objnp import pointwise
    from pyvc import sym
    from pyvc.sym import S
    return pointwise(lambda v: S(sym.rfun('squared', sym.as_real(sym.to_z3(v)))), x)


def thresholds(env, s, r, cthr, sthr):
    """if the points are reported to agree, they do in every coordinate and
    direction a threshold was given for"""
    from contracts.objnp import Numpy, spread, r_sum
    f, x = s.final['fvals'], s.final['x']
    flag = r['stopping_flag']
    env.concrete('success is convergence', bool(r['success']) == bool(flag > 0))
    if flag == 0:
        env.prove('calls are used up', s.count >= s.options['max_calls'])
    if flag == 1:
        env.prove('losses agree', spread(list(f)) < s.options['fstdthresh'])
    if flag != 3:
        return
    for k, c in enumerate(s.cart):
        t = cthr[k]
        env.prove('coordinates agree', (t <= 0) | (spread(list(s.final['s_cart'][:, k])) < t))
    for k in range(len(s.spherical)):
        t, p = sthr[k], s.final['s_spher'][:, k]
        _, c = s.centroid(Numpy.empty([0, 0]), p)
        d = s.angular_dist(p, c)
        sd = Numpy.sqrt(r_sum([square(v) for v in d]) / (s.n - 1))
        env.prove('directions agree', (t <= 0) | (sd < t))


CRITERIA = [('Nelder-Mead', 4, [[1, 2]], 3, 1), ('Nelder-Mead', 6, [[0, 1], [4, 3]], 5, 1), ('CRS2', 5, [[0, 1], [3, 2]], 4, 1), ('Nelder-Mead', 3, [], 2, 1)]


@contract(CONTRACTS, [F + 'spherical_opt'], bounded='any number of iterations; 3 to 6 points', time=110)
def reasons_to_stop(env):
    """convergence is reported only if the losses agree, or the coordinates and
    directions do for which a threshold was given, each by its own spread"""
    method, n, sph, d, b = CRITERIA[env.choose('size', list(range(len(CRITERIA))))]
    which = env.choose('thresholds', ['both', 'coordinates', 'directions'])
    n_cart = d - 2 * len(sph)
    if env.is_concrete:
        o = dict(max_iter=env.choose('max_iter', [5, 200, 1000]), fstdthresh=-1., max_calls=None)
        if which != 'directions':
            o['cstdthresh'] = [env.choose('cstd', [-1, 0.2, 0.02]) for _ in range(n_cart)]
        if which != 'coordinates':
            o['sstdthresh'] = [env.choose('sstd', [-1, 0.3, 0.05, 1e-2]) for _ in sph]
        r, rec = real_search(env, method, sph, d, b, meta=env.flag('meta'), **o)
        criteria(env, r, sph, d, o)
        return
    m = symbolic_numpy(env)
    m.np.square = square
    s = Search(env, m, n, sph, d)
    env.finite()
    env.solver_first()
    s.stop_only = True
    s.options = dict(fstdthresh=env.real('fstdthresh'), max_calls=env.int('max_calls', 1), max_noimprovement=env.int('max_noimprovement', 1))
    cthr = [env.real('cstd') for _ in range(n_cart)] if which != 'directions' else [0] * n_cart
    sthr = [env.real('sstd') for _ in sph] if which != 'coordinates' else [0] * len(sph)
    o = dict(s.options)
    if which != 'directions':
        o['cstdthresh'] = cthr
    if which != 'coordinates':
        o['sstdthresh'] = sthr
    r = s.run(method, b, **o)
    if s.final is not None:
        thresholds(env, s, r, cthr, sthr)


@contract(CONTRACTS, [F + 'spherical_opt'])
def unusable(env):
    """unknown methods, batches for the simplex method and too few points are
    refused"""
    m = symbolic_numpy(env)
    np = m.np
    case = env.choose('case', ['method', 'batch', 'simplex', 'few', 'batch too large', 'thresholds', 'spherical thresholds'])
    x = np.zeros((6, 3))
    f = lambda p: 0.
    sph, rand = [[0, 1]], Obj()
    exc = ValueError if case in ('method', 'batch') else AssertionError
    env.raises(case, exc, lambda: {
        'method': lambda: m.spherical_opt(f, 'BFGS', x, sph, rand=rand),
        'batch': lambda: m.spherical_opt(f, 'Nelder-Mead', x[:4], sph, batch_size=2, rand=rand),
        'simplex': lambda: m.spherical_opt(f, 'Nelder-Mead', x, sph, rand=rand),
        'few': lambda: m.spherical_opt(f, 'CRS2', x[:3], sph, rand=rand),
        'batch too large': lambda: m.spherical_opt(f, 'CRS2', x, sph, batch_size=2, rand=rand),
        'thresholds': lambda: m.spherical_opt(f, 'CRS2', x, sph, cstdthresh=[1., 1.], rand=rand),
        'spherical thresholds': lambda: m.spherical_opt(f, 'CRS2', x, sph, sstdthresh=[1., 1.], rand=rand),
    }[case]())


def directions(env, m, n, fields):
    """n records with arbitrary values of the given fields"""
    np = m.np
    s = np.zeros(n, dtype=m.SPHER_T)
    for f in fields:
        v = env.arr(f, (n,)) if env.is_concrete else None
        for i in range(n):
            s[f][i] = np.asarray(v)[i] if env.is_concrete else env.real(f)
    return s


def close(env, name, a, b, tol=2e-5):
    if env.is_concrete:
        env.concrete(name, abs(float(a) - float(b)) <= tol * max(1., abs(float(b))))
    else:
        env.prove(name, a == b)


def complete(env, m, r, tol=2e-5):
    """angles, vector and their functions belong together"""
    np = env.np if env.is_concrete else env.np
    pi = m.np.pi
    env.prove('zenith in range', (r['zen'] >= 0) & (r['zen'] <= pi + (1e-6 if env.is_concrete else 0)))
    env.prove('azimuth in range', (r['az'] >= 0) & (r['az'] <= 2 * pi + (1e-6 if env.is_concrete else 0)))
    for f, g, a in (('sinzen', 'sin', 'zen'), ('coszen', 'cos', 'zen'), ('sinaz', 'sin', 'az'), ('cosaz', 'cos', 'az')):
        close(env, f, r[f], getattr(np, g)(r[a]), 1e-3 if f == 'coszen' else tol)
    close(env, 'x', r['x'], r['sinzen'] * r['cosaz'])
    close(env, 'y', r['y'], r['sinzen'] * r['sinaz'])
    close(env, 'z', r['z'], r['coszen'])


@contract(CONTRACTS, [F + 'fill_from_spher'], bounded='one direction')
def from_angles(env):
    """a direction given by its angles is completed, the angles are kept"""
    m = symbolic_numpy(env)
    s = m.np.zeros(1, dtype=m.SPHER_T)
    zen, az = env.between('zen', 0., 3.14), env.between('az', 0., 6.28)
    s['zen'][0], s['az'][0] = zen, az
    m.fill_from_spher(s)
    close(env, 'zenith is kept', s['zen'][0], zen)
    close(env, 'azimuth is kept', s['az'][0], az)
    complete(env, m, s[0])


@contract(CONTRACTS, [F + 'fill_from_cart'], bounded='one direction')
def from_vector(env):
    """a direction given by any vector becomes the unit vector along it, and
    is completed; the vector without a direction points upwards"""
    m = symbolic_numpy(env)
    v = [env.real(k) for k in 'xyz']
    if env.flag('zero'):
        v = [0., 0., 0.]
    elif env.flag('vertical'):
        v = [0., 0., v[2]]
    else:
        env.assume(v[0] * v[0] + v[1] * v[1] > 0)
    s = m.np.zeros(1, dtype=m.SPHER_T)
    for f, c in zip('xyz', v):
        s[f][0] = c
    m.fill_from_cart(s)
    r = s[0]
    complete(env, m, r)
    n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    radius = m.np.sqrt(n2)
    if radius == 0:
        for f, w in zip('xyz', (0., 0., 1.)):
            close(env, 'upwards', r[f], w)
        return
    for f, c in zip('xyz', v):
        close(env, 'along the vector', r[f] * radius, c, 1e-4)


def given_by_angles(env, m, shape):
    """complete directions"""
    import itertools
    s = m.np.zeros(shape, dtype=m.SPHER_T)
    for i in itertools.product(*[range(d) for d in shape]):
        s['zen'][i], s['az'][i] = env.between('zen', 0., 3.14), env.between('az', 0., 6.28)
    m.fill_from_spher(s)
    return s


@contract(CONTRACTS, [F + 'reflect', F + 'fill_from_cart'], bounded='one direction')
def reflected(env):
    """a direction is rotated by half a turn about the centroid: the image is
    as far from the centroid, on the opposite side"""
    m = symbolic_numpy(env)
    old, c, new = given_by_angles(env, m, (1,)), given_by_angles(env, m, (1,)), m.np.zeros(1, dtype=m.SPHER_T)
    before = [(r, r.copy()) for r in (old, c)]
    last = {}
    if not env.is_concrete:
        # the vector before it is completed (fill_from_cart: see from_vector)
        env.patch(m, 'fill_from_cart', lambda s: last.update(s=s.copy(), same=s is new))
    m.reflect(old, c, new)
    if not env.is_concrete:
        env.concrete('completed', last.get('same') is True)
    else:
        complete(env, m, new[0])
    o, k, r = old[0], c[0], new[0]
    dot = o['x'] * k['x'] + o['y'] * k['y'] + o['z'] * k['z']
    for f in 'xyz':
        close(env, 'rotated by half a turn', r[f], 2 * dot * k[f] - o[f], 1e-4)
    for a, b in before:
        env.concrete('inputs are left as they are', all(a[0][f] is b[0][f] or bool(a[0][f] == b[0][f]) for f in FIELDS))


@contract(CONTRACTS, [F + 'centroid'], bounded='2 or 3 points; rows or columns of up to 3 x 2 points')
def means(env):
    """the centroid is the mean of the coordinates, and the direction of the
    mean of the vectors"""
    m = symbolic_numpy(env)
    np = m.np
    shape, axis = env.choose('points', [((2,), 0), ((3,), 0), ((2, 1), 0), ((3, 2), 0), ((1, 3), 1), ((2, 3), 1)])
    s = given_by_angles(env, m, shape)
    cs = tuple(shape) + (() if len(shape) > 1 else (2,))
    cart = np.zeros(cs)
    import itertools
    for i in itertools.product(*[range(d) for d in cs]):
        cart[i] = env.real('coordinate')
    filled = []
    if not env.is_concrete:
        env.patch(m, 'fill_from_cart', lambda a: filled.append((a, a.copy())))
    gc, gs = m.centroid(cart, s, axis=axis) if axis or env.flag('axis') else m.centroid(cart, s)
    n = shape[axis]
    rest = [d for i, d in enumerate(shape) if i != axis]
    env.concrete('shape of the direction', tuple(gs.shape) == tuple(rest))
    env.concrete('shape of the coordinates', tuple(gc.shape) == tuple(d for i, d in enumerate(cs) if i != axis))
    at = lambda i, k: i[:axis] + (k,) + i[axis:]
    for i in itertools.product(*[range(d) for d in gc.shape]):
        close(env, 'mean of the coordinates', gc[i], sum([cart[at(i, k)] for k in range(n)], 0.) / n, 1e-6)
    if not env.is_concrete:
        env.concrete('completed', len(filled) == 1 and filled[0][0] is gs)
    for i in itertools.product(*[range(d) for d in rest]):
        want = [sum([s[f][at(i, k)] for k in range(n)], 0.) / n for f in 'xyz']
        if env.is_concrete:
            r = (want[0] ** 2 + want[1] ** 2 + want[2] ** 2) ** 0.5
            if r > 1e-2:
                for f, w in zip('xyz', want):
                    close(env, 'mean direction', gs[f][i], w / r, 1e-3)
                complete(env, m, gs[i])
        else:
            for f, w in zip('xyz', want):
                close(env, 'mean vector', gs[f][i], w)


@contract(CONTRACTS, [F + 'angular_dist'], bounded='one pair of directions')
def distance(env):
    """the angular distance is the angle between the vectors; equal directions
    have none"""
    m = symbolic_numpy(env)
    a = given_by_angles(env, m, (1,))
    b = a if env.flag('equal') else given_by_angles(env, m, (1,))
    dot = a['x'][0] * b['x'][0] + a['y'][0] * b['y'][0] + a['z'][0] * b['z'][0]
    if not env.is_concrete:
        # the scalar product of unit vectors is between -1 and 1 (Lagrange)
        u, v = [[s[f][0] for f in 'xyz'] for s in (a, b)]
        cross = [u[i - 2] * v[i - 1] - u[i - 1] * v[i - 2] for i in range(3)]
        if b is not a:
            env.prove('unit vectors', 1 - dot * dot == cross[0] * cross[0] + cross[1] * cross[1] + cross[2] * cross[2])
        else:
            env.prove('unit vector', dot == 1)
        env.assume((dot >= -1) & (dot <= 1))

        def clip(x, lo, hi):
            from contracts.objnp import pointwise
            from pyvc import prover, sym
            norm = prover.make_norm(sym.ctx())

            def one(x):
                if prover.norm_eq(sym.to_z3(x), sym.to_z3(dot), norm):
                    x = dot         # equal, and known to be in range
                return lo if x < lo else hi if x > hi else x
            return pointwise(one, x)
        env.patch(m.np, 'clip', clip)
    d = m.angular_dist(a, b)[0]
    env.prove('in range', (d >= 0) & (d <= m.np.pi))
    if env.is_concrete:
        close(env, 'angle between the vectors', env.np.cos(d), dot, 1e-3)
        if b is a:
            close(env, 'none', d, 0., 2e-3)
        return
    env.prove('angle between the vectors', m.np.cos(d) == dot)
    if b is a:
        env.prove('none', d == 0)


@contract(CONTRACTS, [F + 'find_replacements'], bounded='up to 4 old and 3 new values', time=100)
def replacements(env):
    """as many of the largest old values as possible are paired with the
    smallest new values, each with a smaller one"""
    m = symbolic_numpy(env)
    np = m.np
    n, k = env.choose('sizes', [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3)])
    old, new = np.zeros(n), np.zeros(k)
    for a in (old, new):
        for i in range(len(a)):
            a[i] = env.real('v')
    if not env.is_concrete:
        env.solver_first()
    given = env.flag('order given')
    so, sn = (np.argsort(old), np.argsort(new)) if given else (None, None)
    only = n - 1 if given and n > k and env.flag('some old ones') else n
    if given:
        so = so[:only]
    pairs = m.find_replacements(old, new, so, sn)
    r = len(pairs)
    env.concrete('at most one for each', r <= min(k, only))
    if not env.is_concrete:
        from contracts.objnp import every, some, neg, ite
        P = env.prove
    else:
        every, some, neg, ite = all, any, lambda x: not x, lambda c, a, b: a if c else b
        P = lambda name, e: env.concrete(name, bool(e))
    oi, ni = [p[0] for p in pairs], [p[1] for p in pairs]
    for i in range(r):
        P('replaced by a smaller one', new[ni[i]] < old[oi[i]])
        P('of those that may be replaced', some([oi[i] == x for x in (list(so) if given else range(n))]))
        for j in range(i):
            P('different old values', neg(oi[i] == oi[j]))
            P('different new values', neg(ni[i] == ni[j]))
    candidates = list(so) if given else list(range(n))
    for x in candidates:
        P('the largest ones', every([some([x == o for o in oi] + [old[x] <= old[o]]) for o in oi]) if r else True)
    for y in range(k):
        P('the smallest ones', every([some([y == q for q in ni] + [new[y] >= new[q]]) for q in ni]) if r else True)
    if r < min(k, only):
        # one more pair is not possible: sorted, some new value is not smaller
        to = list(so) if given else list(np.argsort(old))
        ts = list(sn) if given else list(np.argsort(new))
        o1, n1 = to[len(to) - r - 1:], ts[:r + 1]
        P('as many as possible', some([new[b] >= old[a] for a, b in zip(o1, n1)]))
