"""Symbolic models of the libraries the repository calls (trusted).

Only the documented pointwise meaning of the functions is modelled; anything
else is absent, so that a use of it ends in AttributeError -> Unsupported.
"""
import contextlib
import types
import numpy as _np
import z3
from . import sym, tensor as tn
from .sym import S, Unsupported, ctx, to_z3, RS, IS, BS, as_real, as_bool, as_arith, rfun, wrap
from .tensor import T, as_t, ew, iz, dim_expr, dim, ShapeError, is_symbolic


class Namespace(types.ModuleType):
    """A modelled module; unknown attributes are outside the fragment."""

    def __init__(self, name, **kw):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if self.__name__ == 'numpy' and not hasattr(_np, k):
            raise AttributeError("module 'numpy' has no attribute %r" % k)
        raise Unsupported('%s.%s is not modelled' % (self.__name__, k))


def scal(r):
    """numpy returns scalars for 0-d results"""
    if isinstance(r, T) and r.shape_ == () and r.np_like:
        return wrap(r.at())
    return r


def tensorlike(r):
    if isinstance(r, T):
        if r.np_like:
            return T(r.shape_, r._fn, r.dtype_, False)
        return r
    t = as_t(r)
    return T(t.shape_, t._fn, t.dtype_, False)


def unary(name, f=None):
    g = f or (lambda e: rfun(name, e))

    def fn(x, *a, **k):
        return ew(g, x)
    return fn


def e_neg(a):
    a = as_arith(a)
    return sym.e_sub(z3.IntVal(0), a)


def e_arccos(a):
    return rfun('arccos', a)


def is_inf(x, inf):
    return z3.is_expr(x) and x.eq(inf) or isinstance(x, float) and sym.to_z3(x).eq(inf)


def e_max(a, b):
    if is_inf(b, sym.NEG_INF):
        return a
    return sym.e_if(sym.e_lt(a, b), b, a)


def e_min(a, b):
    if is_inf(b, sym.INF):
        return a
    return sym.e_if(sym.e_lt(b, a), b, a)


def e_clip(x, lo, hi):
    return e_min(e_max(x, lo), hi)


def e_sign(a):
    a = as_arith(a)
    z = z3.RealVal(0) if a.sort() == RS else z3.IntVal(0)
    o = z3.RealVal(1) if a.sort() == RS else z3.IntVal(1)
    return sym.e_if(sym.e_lt(z, a), o, sym.e_if(sym.e_lt(a, z), -o, z))


finite_mode = sym.finite_mode


def e_isnan(a):
    a = as_arith(a)
    if finite_mode(a):
        return z3.BoolVal(False)
    if a.sort() == IS or sym.const_num(a) is not None:
        return z3.BoolVal(False)
    return a == sym.NAN


def e_isinf(a):
    a = as_arith(a)
    if finite_mode(a):
        return z3.BoolVal(False)
    if a.sort() == IS or sym.const_num(a) is not None:
        return z3.BoolVal(False)
    return z3.Or(a == sym.INF, a == -sym.INF)


def e_isfinite(a):
    a = as_arith(a)
    if finite_mode(a):
        return z3.BoolVal(True)
    if a.sort() == IS or sym.const_num(a) is not None:
        return z3.BoolVal(True)
    return z3.And(a != sym.NAN, a != sym.INF, a != -sym.INF)


def e_sqrt(a):
    a = as_real(a)
    c = sym.const_num(a)
    if c is not None and c in (0, 1):
        return a
    return rfun('sqrt', a)


def e_exp(a):
    a = as_real(a)
    if sym.const_num(a) == 0:
        return z3.RealVal(1)
    return rfun('exp', a)


def e_log(a):
    a = as_real(a)
    if sym.const_num(a) == 1:
        return z3.RealVal(0)
    return rfun('log', a)


def e_log10(a):
    return sym.e_div(e_log(a), rfun('log', z3.RealVal(10)))


def e_log1p(a):
    return e_log(sym.e_add(z3.RealVal(1), as_real(a)))


def e_expm1(a):
    return sym.e_sub(e_exp(a), z3.RealVal(1))


def e_elu(a):
    a = as_real(a)
    return sym.e_if(sym.e_lt(z3.RealVal(0), a), a, e_expm1(a))


def e_softplus(a):
    return e_log(sym.e_add(z3.RealVal(1), e_exp(a)))


def e_sigmoid(a):
    return sym.e_div(z3.RealVal(1), sym.e_add(z3.RealVal(1), e_exp(e_neg(as_real(a)))))


def e_round(a):
    a = as_real(a)
    f = z3.ToInt(a + z3.RealVal('1/2'))
    return z3.ToReal(f)


DEG = lambda a: sym.e_div(sym.e_mul(as_real(a), sym.PI), z3.RealVal(180))
RAD = lambda a: sym.e_div(sym.e_mul(as_real(a), z3.RealVal(180)), sym.PI)

ELEM = dict(
    exp=e_exp, log=e_log, sqrt=e_sqrt, log10=e_log10, log1p=e_log1p, expm1=e_expm1,
    isnan=e_isnan, isfinite=e_isfinite, isinf=e_isinf, sign=e_sign,
    deg2rad=DEG, radians=DEG, rad2deg=RAD, degrees=RAD,
    square=lambda a: sym.e_mul(a, a), abs=sym.e_abs, absolute=sym.e_abs,
    floor=lambda a: as_real(sym.e_floor(a)), negative=e_neg, logical_not=lambda a: z3.Not(as_bool(a)),
)
for _n in ('sin', 'cos', 'tan', 'tanh', 'arccos', 'arcsin', 'arctan', 'sinh', 'cosh'):
    ELEM[_n] = (lambda nm: lambda a: rfun(nm, a))(_n)


def e_trig(nm):
    def f(a):
        a = as_real(a)
        if sym.const_num(a) == 0:
            return z3.RealVal(1) if nm == 'cos' else z3.RealVal(0)
        return rfun(nm, a)
    return f


ELEM['sin'], ELEM['cos'] = e_trig('sin'), e_trig('cos')

BIN = dict(
    add=sym.e_add, subtract=sym.e_sub, multiply=sym.e_mul, divide=sym.e_div, true_divide=sym.e_div,
    power=sym.e_pow, maximum=e_max, minimum=e_min, mod=sym.e_mod, fmod=sym.e_mod, remainder=sym.e_mod,
    arctan2=lambda a, b: rfun('arctan2', a, b),
    logical_and=lambda a, b: z3.And(as_bool(a), as_bool(b)),
    logical_or=lambda a, b: z3.Or(as_bool(a), as_bool(b)),
    logical_xor=lambda a, b: z3.Xor(as_bool(a), as_bool(b)),
    equal=sym.e_eq, not_equal=lambda a, b: z3.Not(sym.e_eq(a, b)),
    greater=lambda a, b: sym.e_lt(b, a), greater_equal=lambda a, b: sym.e_le(b, a),
    less=sym.e_lt, less_equal=sym.e_le,
    divide_no_nan=lambda a, b: sym.e_if(sym.e_eq(as_real(b), z3.RealVal(0)), z3.RealVal(0), sym.e_div(a, b)),
    multiply_no_nan=lambda a, b: sym.e_mul(a, b),
    hypot=lambda a, b: rfun('sqrt', sym.e_add(sym.e_mul(a, a), sym.e_mul(b, b))),
)


def e_where(c, a, b):
    a, b = as_arith(a) if not z3.is_bool(a) or not z3.is_bool(b) else a, as_arith(b) if not z3.is_bool(a) or not z3.is_bool(b) else b
    return sym.e_if(as_bool(c), a, b)


def concrete(*args):
    return not any(is_symbolic(a) or isinstance(a, (tn.TShape,)) and is_symbolic(list(a)) for a in args)


def real_dtype(d):
    if d is None:
        return None
    d = getattr(d, 'vc_real', d)
    if isinstance(d, sym.DType):
        return d.name
    return d


# -- numpy --------------------------------------------------------------------------
class _AnyType(type):
    pass


class NdarrayMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _np.ndarray) or (isinstance(o, T) and o.np_like and (o.shape_ != () or o.base is not None))


class ndarray(metaclass=NdarrayMeta):
    pass


class FloatingMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _np.floating)


class _Unused(ValueError):
    pass


def make_numpy():
    N = {}
    for k, f in ELEM.items():
        N[k] = (lambda f: lambda x, *a, **kw: scal(ew(f, x)))(f)
    for k, f in BIN.items():
        N[k] = (lambda f: lambda a, b, *r, **kw: scal(ew(f, a, b)))(f)

    def array(x, dtype=None, copy=True, ndmin=0, **kw):
        if isinstance(x, T):
            r = x.copy()
            r.np_like = True
            return r.astype(dtype) if dtype is not None else r
        if isinstance(x, S):
            r = as_t(x)
            r.base = None
            return r
        if concrete(x) and not has_opaque(x):
            r = _np.array(x, dtype=real_dtype(dtype), ndmin=ndmin)
            return r if r.size or r.ndim == 0 else as_mut(r)
        if hasattr(x, 'vc_array'):
            return x.vc_array(dtype)
        r = as_t(x)
        r = T(r.shape_, r._fn, r.dtype_, True)
        if dtype is not None:
            r = r.astype(dtype)
        return r

    def asarray(x, dtype=None, **kw):
        if isinstance(x, T) and x.np_like:
            return x.astype(dtype) if dtype is not None else x
        return array(x, dtype)

    def fullf(value, kind=None):
        def f(shape, dtype=None, **kw):
            shape = shp(shape)
            if concrete(shape) and size(shape) <= 64:
                return as_mut(_np.full(shape, value, dtype=real_dtype(dtype) or float))
            k = sym.dtype_kind(dtype) if dtype is not None else 'f'
            e = {'f': z3.RealVal(value), 'i': z3.IntVal(value), 'b': z3.BoolVal(bool(value))}[k]
            return T(shape, lambda *i: e, tn.dname(dtype) or 'float64', True)
        return f

    def as_mut(arr):
        """small concrete arrays are kept symbolic so that symbolic values can
        be assigned into them"""
        if not arr.size:
            zero = {'i': z3.IntVal(0), 'u': z3.IntVal(0), 'b': z3.BoolVal(False)}.get(arr.dtype.kind, z3.RealVal(0))
            return T(arr.shape, lambda *i: zero, str(arr.dtype), True)
        t = as_t(arr)
        return T(t.shape_, t._fn, str(arr.dtype), True)

    def full(shape, value, dtype=None, **kw):
        shape = shp(shape)
        v = as_t(value)
        if dtype is not None:
            v = v.astype(dtype)
        if v.kind() == 'i' and dtype is None:
            pass
        return T(shape, tn.broadcast_to(v, shape)._fn, v.dtype_, True)

    def empty(shape, dtype=None, **kw):
        shape = shp(shape)
        k = sym.dtype_kind(dtype) if dtype is not None else 'f'
        r = tn.fresh_tensor('uninit', shape, {'f': RS, 'i': IS, 'b': BS}[k])
        r.np_like, r.dtype_ = True, tn.dname(dtype) or r.dtype_
        return r

    def like(f):
        def g(x, dtype=None, **kw):
            t = as_t(x)
            return f(t.shape_, dtype=dtype or t.dtype)
        return g

    def wher(c, a=None, b=None):
        if a is None:
            if concrete(c):
                return _np.where(c)
            raise Unsupported('np.where with one argument')
        return scal(ew(e_where, c, a, b))

    def red(f):
        def g(x, axis=None, keepdims=False, dtype=None, **kw):
            return scal(f(as_t(x), axis, keepdims))
        return g

    def std(x, axis=None, ddof=0, keepdims=False, **kw):
        x = as_t(x)
        m = tn.reduce_mean(x, axis, True)
        d = x - m
        v = tn.reduce_sum(d * d, axis, keepdims)
        n = tn.count(x, tn.norm_axis(axis, x.ndim))
        return scal(ew(e_sqrt, v / (n - ddof)))

    def var(x, axis=None, ddof=0, keepdims=False, **kw):
        x = as_t(x)
        m = tn.reduce_mean(x, axis, True)
        d = x - m
        n = tn.count(x, tn.norm_axis(axis, x.ndim))
        return scal(tn.reduce_sum(d * d, axis, keepdims) / (n - ddof))

    def clip(x, lo=None, hi=None, **kw):
        lo = kw.get('a_min', lo)
        hi = kw.get('a_max', hi)
        r = x
        if lo is not None:
            r = ew(e_max, r, lo)
        if hi is not None:
            r = ew(e_min, r, hi)
        return scal(as_t(r))

    def atleast_1d(x):
        t = as_t(x)
        if t.ndim:
            return t
        e = t.at()
        return T((1,), lambda i: e, t.dtype_, True)

    def atleast_2d(x):
        t = as_t(x)
        if t.ndim == 0:
            return tn.reshape(t, [1, 1])
        if t.ndim == 1:
            return tn.expand_dims(t, 0)
        return t

    def vstack(xs):
        return tn.concat([atleast_2d(x) for x in xs], 0)

    def arange(*a, dtype=None, **k):
        if concrete(*a):
            return _np.arange(*a, dtype=real_dtype(dtype))
        if len(a) == 1:
            n = dim(a[0])
            return T((n,), lambda i: iz(i), 'int64', True)
        raise Unsupported('arange')

    def linspace(a, b, n=50, **kw):
        n = kw.get('num', n)
        if isinstance(n, int) and n <= 1:
            return T((n,), lambda i: sym.as_real(to_z3(a)), None, True)
        d = (b - a) / (n - 1)
        return T((dim(n),), lambda i: to_z3(a + S(iz(i)) * d), None, True)

    def linalg_norm(x, axis=None, keepdims=False, ord=None, **kw):
        if ord not in (None, 2):
            raise Unsupported('norm order')
        x = as_t(x)
        return scal(ew(e_sqrt, tn.reduce_sum(x * x, axis, keepdims)))

    def argm(is_min):
        def g(x, axis=None, **kw):
            x = as_t(x)
            return argext(x, axis, is_min)
        return g

    def count_nonzero(x, axis=None, **kw):
        x = as_t(x)
        return scal(tn.reduce_sum(ew(lambda e: z3.If(as_bool(e), z3.IntVal(1), z3.IntVal(0)), x), axis))

    def prod(x, axis=None, keepdims=False, **kw):
        x = as_t(x)
        return scal(tn.reduce_ext(x, axis, keepdims, 'PRODR'))

    def cross(a, b, **kw):
        a, b = as_t(a), as_t(b)
        a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
        b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
        return tn.stack([as_t(a1 * b2 - a2 * b1), as_t(a2 * b0 - a0 * b2), as_t(a0 * b1 - a1 * b0)], -1)

    def diag(x):
        x = as_t(x)
        if x.ndim == 2:
            x = tn.fz(x)
            return T((x.shape_[0],), lambda i: x._fn(i, i), x.dtype_, True)
        fn = x._fn
        zero = z3.IntVal(0)

        def f(i, j):
            c = tn.ieq(i, j)
            if isinstance(c, bool):
                return fn(i) if c else z3.RealVal(0)
            return sym.e_if(c, tn.ts_val(fn, (i,)), zero)
        return T((x.shape_[0], x.shape_[0]), f, x.dtype_, True)

    def searchsorted(a, v, side='left', sorter=None):
        """number of entries below (or not above) v: defined for sorted a"""
        if sorter is not None:
            raise Unsupported('searchsorted sorter')
        a, v = as_t(a), as_t(v)
        of = getattr(a, 'sorted_of', None)
        if of is not None and of[1] is a._fn:
            # a sorted copy has the same entries
            a = of[0]
        cmp = sym.e_lt if side == 'left' else sym.e_le
        n = a.shape_[0]
        return scal(T(v.shape_, lambda *i: count_e(n, lambda j: cmp(a.at(j), v.at(*i))), None, True))

    def matmul(a, b):
        return scal(tn.matmul(a, b))

    def expand(x, axis):
        return tn.expand_dims(as_t(x), axis)

    def allf(x, axis=None, **kw):
        if concrete(x):
            return _np.all(x, axis=axis)
        return scal(tn.reduce_bool(as_t(x), axis, kw.get('keepdims', False), 'all'))

    def anyf(x, axis=None, **kw):
        if concrete(x):
            return _np.any(x, axis=axis)
        return scal(tn.reduce_bool(as_t(x), axis, kw.get('keepdims', False), 'any'))

    def allclose(a, b, **kw):
        return scal(tn.reduce_bool(ew(sym.e_eq, a, b), None, False, 'all'))

    def array_split(x, n, axis=0):
        if concrete(x, n):
            return _np.array_split(x, n, axis)
        raise Unsupported('array_split')

    def repeat(x, n, axis=None):
        x = as_t(x)
        if axis is None:
            x = tn.reshape(x, [-1])
            axis = 0
        raise Unsupported('repeat')

    def append(a, b, axis=None):
        if axis is None:
            return tn.concat([tn.reshape(as_t(a), [-1]), tn.reshape(as_t(b), [-1])], 0)
        return tn.concat([a, b], axis)

    def inv(x):
        x = as_t(x)
        n = x.shape_[-1]
        if x.ndim < 2:
            raise _np.linalg.LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % x.ndim)
        if x.ndim != 2 or not isinstance(n, int) or n > 3 or x.shape_[0] != n:
            raise Unsupported('matrix inverse')
        m = [[as_real(x.at(i, j)) for j in range(n)] for i in range(n)]

        def minor(rows, cols):
            if not rows:
                return z3.RealVal(1)
            r = z3.RealVal(0)
            for q, c in enumerate(cols):
                t = sym.e_mul(m[rows[0]][c], minor(rows[1:], cols[:q] + cols[q + 1:]))
                r = sym.e_add(r, t) if q % 2 == 0 else sym.e_sub(r, t)
            return r
        al = list(range(n))
        det = minor(al, al)
        if ctx().branch(det == 0):
            raise _np.linalg.LinAlgError('Singular matrix')
        tab = {}
        for i in al:
            for j in al:
                c = minor([q for q in al if q != j], [q for q in al if q != i])
                tab[(i, j)] = sym.e_div(c if (i + j) % 2 == 0 else e_neg(c), det)
        from . import autodiff
        r = autodiff.table((n, n), tab)
        r.np_like = True
        return r

    def squeeze(x, axis=None):
        return tn.squeeze(as_t(x), axis)

    def arr_round(x, decimals=0, **kw):
        if concrete(x):
            return _np.round(x, decimals)
        raise Unsupported('np.round')

    N.update(
        pi=S(sym.PI), inf=float('inf'), nan=float('nan'), newaxis=None, e=None,
        ndarray=ndarray, array=array, asarray=asarray, zeros=fullf(0), ones=fullf(1), full=full, empty=empty,
        zeros_like=like(fullf(0)), ones_like=like(fullf(1)), empty_like=like(empty),
        full_like=lambda x, v, dtype=None: full(as_t(x).shape_, v, dtype),
        where=wher, sum=red(tn.reduce_sum), mean=red(tn.reduce_mean), std=std, var=var,
        average=lambda x, axis=None, weights=None: scal(tn.reduce_mean(as_t(x), axis) if weights is None else
                                                        tn.reduce_sum(as_t(x) * weights, axis) / tn.reduce_sum(as_t(weights), axis)),
        max=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'MAXR')), min=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'MINR')),
        amax=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'MAXR')), amin=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'MINR')),
        prod=prod, all=allf, any=anyf, alltrue=allf, count_nonzero=count_nonzero, clip=clip, reshape=lambda x, s, **k: tn.reshape(as_t(x), s),
        stack=lambda xs, axis=0: tn.stack(list(xs), axis), concatenate=lambda xs, axis=0: tn.concat(xs if hasattr(xs, 'vc_seq') else list(xs), axis),
        vstack=vstack, expand_dims=expand, squeeze=squeeze, tile=lambda A, reps: tn.tile(as_t(A), reps),
        atleast_1d=atleast_1d, atleast_2d=atleast_2d, arange=arange, linspace=linspace, cumsum=lambda x, axis=None: tn.cumsum(as_t(x), axis),
        argmin=argm(True), argmax=argm(False), cross=cross, diag=diag, searchsorted=searchsorted, matmul=matmul, dot=matmul,
        allclose=allclose, array_split=array_split, append=append, transpose=lambda x, p=None: tn.transpose(as_t(x), p),
        swapaxes=lambda x, a, b: tn.transpose(as_t(x), swap(as_t(x).ndim, a, b)),
        ravel=lambda x: tn.reshape(as_t(x), [-1]), copy=lambda x: as_t(x).copy(), round=arr_round, isscalar=lambda x: isinstance(x, (S, int, float)),
        broadcast_to=lambda x, s: tn.broadcast_to(as_t(x), s), outer=lambda a, b: ew(sym.e_mul, tn.expand_dims(as_t(a), 1), tn.expand_dims(as_t(b), 0)),
        array_equal=lambda a, b: array_equal(a, b),
        sort=lambda x, axis=-1: _np.sort(x, axis) if plain(x) else sort_values(as_t(x), axis),
        argsort=lambda x, axis=-1, **k: _np.argsort(x, axis, **k) if plain(x) else argsort(as_t(x), axis),
        shape=lambda x: as_t(x).shape, ndim=lambda x: as_t(x).ndim, size=lambda x: as_t(x).size,
        float32=_np.float32, float64=_np.float64, int32=_np.int32, int64=_np.int64, bool_=_np.bool_, dtype=_np.dtype, floating=_np.floating, integer=_np.integer,
        float_=_np.float64, uint8=_np.uint8, generic=_np.generic, number=_np.number,
        finfo=_np.finfo, iinfo=_np.iinfo,
    )
    np = Namespace('numpy', **N)
    np.linalg = Namespace('numpy.linalg', norm=linalg_norm, inv=inv, LinAlgError=_np.linalg.LinAlgError)
    np.random = make_random('rng')
    return np


def has_opaque(x):
    if isinstance(x, (list, tuple)):
        return any(has_opaque(v) for v in x)
    return hasattr(x, 'vc_array')


def swap(n, a, b):
    p = list(range(n))
    p[a], p[b] = p[b], p[a]
    return p


def count_e(n, f):
    return tn.sum_e(dim_expr(n), lambda j: z3.If(as_bool(f(j)), z3.IntVal(1), z3.IntVal(0)))


def array_equal(a, b):
    a, b = as_t(a), as_t(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape_, b.shape_):
        if tn.dim_same(x, y) is not True:
            if not bool(S(to_z3(x) == to_z3(y))):
                return False
    return wrap(tn.reduce_bool(ew(sym.e_eq, a, b), None, False, 'all').at())


def argext(x, axis, is_min):
    """first index of the extremum"""
    if axis is None:
        if x.ndim != 1:
            x = tn.reshape(x, [-1])
        axis = 0
    a = tn.norm_axis(axis, x.ndim)[0]
    n = x.shape_[a]
    keep = [k for k in range(x.ndim) if k != a]
    c = ctx()

    def at(j, idx):
        full = [None] * x.ndim
        for p, k in enumerate(keep):
            full[k] = idx[p]
        full[a] = j
        return x.at(*full)
    if isinstance(n, int) and n <= tn.EXPAND:
        if n == 0:
            raise ValueError('attempt to get argmin of an empty sequence')

        def fn(*idx):
            r, v = z3.IntVal(0), at(0, idx)
            for j in range(1, n):
                w = at(j, idx)
                better = sym.e_lt(w, v) if is_min else sym.e_lt(v, w)
                r, v = sym.e_if(better, z3.IntVal(j), r), sym.e_if(better, w, v)
            return r
        return scal(T([x.shape_[k] for k in keep], tn.memo(fn), 'int64', x.np_like))
    if keep:
        raise Unsupported('argmin over a symbolic axis of a matrix')
    key = ('argext', is_min, n if isinstance(n, int) else n.e.get_id(), x.at(z3.Int('?a')).get_id())
    if not hasattr(c, 'argext'):
        c.argext = {}
    if key not in c.argext:
        r = c.fresh('argext', IS)
        c.assume(S(z3.And(r >= 0, r < iz(dim_expr(n)))))
        j = z3.Int('?j')
        xr, xj = x.at(r), x.at(j)
        dom = z3.And(j >= 0, j < iz(dim_expr(n)))
        c.assume_fact(z3.ForAll([j], z3.Implies(dom, (sym.e_le(xr, xj) if is_min else sym.e_le(xj, xr)))))
        c.assume_fact(z3.ForAll([j], z3.Implies(z3.And(dom, j < r), (sym.e_lt(xr, xj) if is_min else sym.e_lt(xj, xr)))))
        c.argext[key] = (r, x.at(z3.Int('?a')))
    return S(c.argext[key][0])


def plain(x):
    """a list or tuple of plain Python values (numpy itself is applied)"""
    return isinstance(x, (list, tuple)) and all(isinstance(v, (str, bool, int, float)) or plain(v) for v in x)


def argsort(x, axis=-1):
    """an ordering permutation of a vector"""
    c = ctx()
    if x.ndim != 1:
        raise Unsupported('argsort of a matrix')
    n = x.shape_[0]
    key = ('argsort', x.at(z3.Int('?a')).get_id(), str(n))
    if not hasattr(c, 'argext'):
        c.argext = {}
    if key not in c.argext:
        p = z3.Function(c.fresh_name('perm'), IS, IS)
        q = z3.Function(c.fresh_name('permi'), IS, IS)
        i, j = z3.Ints('?i ?j')
        N = iz(dim_expr(n))
        c.assume_fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(p(i) >= 0, p(i) < N, q(p(i)) == i)), patterns=[p(i)]))
        c.assume_fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(q(i) >= 0, q(i) < N, p(q(i)) == i)), patterns=[q(i)]))
        c.assume_fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N), sym.e_le(x.at(p(i)), x.at(p(j)))), patterns=[z3.MultiPattern(p(i), p(j))]))
        c.argext[key] = (p, x.at(z3.Int('?a')))
    p = c.argext[key][0]
    return T((n,), lambda i: p(iz(i)), 'int64', x.np_like)


def sort_values(x, axis=-1):
    if x.ndim == 1:
        x = T(x.shape_, x._fn, x.dtype_, x.np_like)
        # the permutation is only introduced when an element is read
        y = T(x.shape_, lambda i: x.at(argsort(x).at(i)), x.dtype_, x.np_like)
        y._sort = x.sort()
        y.sorted_of = (x, y._fn)
        return y
    n = x.shape_[-1]
    if axis in (-1, x.ndim - 1) and isinstance(n, int) and 1 <= n <= 4:
        # a sorting network over the elements of a row
        def row(*ix):
            e = [x.at(*(tuple(ix[:-1]) + (z3.IntVal(k),))) for k in range(n)]
            for a in range(n):
                for b in range(n - 1 - a):
                    e[b], e[b + 1] = e_min(e[b], e[b + 1]), e_max(e[b], e[b + 1])
            j, r = ix[-1], e[-1]
            if isinstance(j, int) or z3.is_int_value(j):
                return e[j if isinstance(j, int) else j.as_long()]
            for k in range(n - 2, -1, -1):
                r = sym.e_if(j == k, e[k], r)
            return r
        return T(x.shape_, row, x.dtype_, x.np_like)
    raise Unsupported('sort of a matrix')


def shp(shape):
    if isinstance(shape, T):
        return tuple(dim(shape[i]) for i in range(shape.shape_[0]))
    if isinstance(shape, (int, S, _np.integer)):
        return (dim(shape),)
    return tuple(dim(d) for d in shape)


def size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def make_random(tag):
    def uniform(low=0.0, high=1.0, size=None, **kw):
        return draw('uniform', size, low, high)

    def draw(name, size, low=None, high=None):
        c = ctx()
        if size is None:
            s = c.real('rnd_' + name)
            if low is not None:
                c.assume(s >= low)
                c.assume(s <= high)
            return s
        t = tn.fresh_tensor('rnd_' + name, shp(size))
        if low is not None:
            # the range holds for every draw
            idx = [z3.Int('?r%d' % i) for i in range(t.ndim)]
            v = t.at(*idx)
            lo, hi = as_t(low), as_t(high)
            lo = tn.broadcast_to(lo, t.shape_).at(*idx)
            hi = tn.broadcast_to(hi, t.shape_).at(*idx)
            c.assume_fact(z3.ForAll(idx, z3.And(v >= as_real(lo), v <= as_real(hi)), patterns=[v]))
        return t

    class RandomState:
        def __init__(self, seed=None):
            self.seed = seed
            self.calls = []

        def uniform(self, low=0.0, high=1.0, size=None):
            return draw('uniform', size, low, high)

        def normal(self, loc=0.0, scale=1.0, size=None):
            return loc + scale * draw('normal', size)

        def __deepcopy__(self, memo):
            return self
    return Namespace('numpy.random', uniform=uniform, RandomState=RandomState,
                     normal=lambda loc=0.0, scale=1.0, size=None: loc + scale * draw('normal', size),
                     default_rng=RandomState, seed=lambda s=None: None)


# -- TensorFlow -----------------------------------------------------------------------
class TensorMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, T) and not o.np_like


class Tensor(metaclass=TensorMeta):
    pass


class Module:
    """tf.Module"""

    def __init__(self, name=None):
        self._name = name or 'module'

    @property
    def variables(self):
        out = []
        for k, v in sorted(vars(self).items()):
            for x in find_vars(v):
                if not any(x is y for y in out):
                    out.append(x)
        return tuple(out)

    @property
    def trainable_variables(self):
        return tuple(v for v in self.variables if v.trainable)

    @property
    def name(self):
        return self._name


def find_vars(v):
    if isinstance(v, Variable):
        return [v]
    if isinstance(v, Module):
        return list(v.variables)
    if isinstance(v, dict):
        return [x for w in v.values() for x in find_vars(w)]
    if isinstance(v, (list, tuple)):
        return [x for w in v for x in find_vars(w)]
    return []


class Variable(T):
    def __init__(self, initial_value=None, name=None, dtype=None, trainable=True, **kw):
        t = as_t(initial_value)
        T.__init__(self, t.shape_, t._fn, tn.dname(dtype) or t.dtype_, False)
        self.name = '%s:0' % (name or 'Variable')
        self.trainable = trainable

    def assign(self, v):
        t = as_t(v)
        self._fn = t._fn
        return self

    def assign_add(self, v):
        old = T(self.shape_, self._fn, self.dtype_, False)
        self._fn = (old + v)._fn
        return self

    def assign_sub(self, v):
        old = T(self.shape_, self._fn, self.dtype_, False)
        self._fn = (old - v)._fn
        return self

    def numpy(self):
        return T(self.shape_, self._fn, self.dtype_, True)

    def value(self):
        return T(self.shape_, self._fn, self.dtype_, False)

    def read_value(self):
        return self.value()


class TensorSpec:
    def __init__(self, shape=None, dtype=None, name=None):
        self.shape, self.dtype, self.name = shape, dtype, name

    def __eq__(self, o):
        return isinstance(o, TensorSpec) and (None if self.shape is None else list(self.shape)) == (None if o.shape is None else list(o.shape)) and self.dtype == o.dtype

    def __hash__(self):
        return hash(str(self.dtype))


class InvalidArgument(Exception):
    pass


def make_tf():
    F = {}

    def tf_out(r):
        return tensorlike(r)

    def lift(f):
        return lambda *a, **k: tf_out(f(*a, **k))
    for k, f in ELEM.items():
        F[k] = (lambda f: lambda x, name=None, **kw: tf_out(ew(f, x)))(f)
    for k, f in BIN.items():
        F[k] = (lambda f: lambda a=None, b=None, name=None, **kw: tf_out(ew(f, a if a is not None else kw['x'], b if b is not None else kw['y'])))(f)
    for a, b in (('acos', 'arccos'), ('asin', 'arcsin'), ('atan', 'arctan'), ('atan2', 'arctan2'), ('is_finite', 'isfinite'),
                 ('is_nan', 'isnan'), ('is_inf', 'isinf'), ('pow', 'power'), ('floormod', 'mod')):
        F[a] = F[b]
    F['erf'] = lambda x, name=None: tf_out(ew(lambda e: rfun('erf', e), x))
    F['erfinv'] = lambda x, name=None: tf_out(ew(lambda e: rfun('erfinv', e), x))
    F['lgamma'] = lambda x, name=None: tf_out(ew(lambda e: rfun('lgamma', e), x))
    F['softplus'] = lambda x, name=None: tf_out(ew(e_softplus, x))
    F['sigmoid'] = lambda x, name=None: tf_out(ew(e_sigmoid, x))
    F['elu'] = lambda x, name=None: tf_out(ew(e_elu, x))
    F['relu'] = lambda x, name=None: tf_out(ew(lambda e: e_max(as_real(e), z3.RealVal(0)), x))

    def red(f):
        def g(x=None, axis=None, keepdims=False, name=None, input_tensor=None):
            if x is None:
                x = input_tensor
            if hasattr(x, 'vc_seq') and not isinstance(x, T):
                x = tn.seq_tensor(x.vc_seq())
            return tf_out(f(as_t(x), axis, keepdims))
        return g

    def reduce_mean(x, axis, keepdims):
        return tn.reduce_mean(x, axis, keepdims)

    def reduce_var(x, axis, keepdims):
        m = tn.reduce_mean(x, axis, True)
        d = x - m
        return tn.reduce_mean(d * d, axis, keepdims)

    def reduce_std(x, axis, keepdims):
        return ew(e_sqrt, reduce_var(x, axis, keepdims))

    def cast(x, dtype=None, name=None):
        return tf_out(as_t(x).astype(dtype))

    def convert(x, dtype=None, name=None, **k):
        t = as_t(x)
        if dtype is not None and sym.dtype_kind(dtype) != t.kind():
            t = t.astype(dtype)
        elif dtype is not None:
            t = T(t.shape_, t._fn, tn.dname(dtype), False)
        return T(t.shape_, t._fn, t.dtype_, False)

    def where(c=None, x=None, y=None, name=None, **k):
        c = k.get('condition', c)
        if x is None:
            return where_idx(as_t(c))
        return tf_out(ew(e_where, c, x, y))

    def where_idx(m):
        if m.ndim != 1:
            raise Unsupported('tf.where indices of a matrix')
        cnt, fun = tn.selection(m)
        return T((cnt, 1), lambda i, j: fun(iz(i)), 'int64', False)

    def const(v):
        def f(shape=None, dtype=None, name=None):
            k = sym.dtype_kind(dtype) if dtype is not None else 'f'
            e = {'f': z3.RealVal(v), 'i': z3.IntVal(v), 'b': z3.BoolVal(bool(v))}[k]
            return T(shp(shape), lambda *i: e, tn.dname(dtype) or 'float32', False)
        return f

    def like(v):
        def f(x=None, dtype=None, name=None, **k):
            if x is None:
                x = k.get('input')
            x = as_t(x)
            kk = sym.dtype_kind(dtype) if dtype is not None else x.kind()
            e = {'f': z3.RealVal(v), 'i': z3.IntVal(v), 'b': z3.BoolVal(bool(v))}[kk]
            return T(x.shape_, lambda *i: e, tn.dname(dtype) or x.dtype_, False)
        return f

    def ensure_shape(x, shape, name=None):
        x = as_t(x)
        if len(shape) != x.ndim:
            raise ValueError('shape %s is incompatible with %s' % (x.shape_, shape))
        for d, s in zip(x.shape_, shape):
            if s is None:
                continue
            if tn.dim_same(d, dim(s)) is not True:
                raise ValueError('shape %s is incompatible with %s' % (x.shape_, shape))
        return tf_out(x)

    def unstack(x, num=None, axis=0, name=None):
        x = as_t(x)
        a = tn.norm_axis(axis, x.ndim)[0]
        n = x.shape_[a]
        if not isinstance(n, int):
            raise Unsupported('unstack of a symbolic axis')
        key = [slice(None)] * x.ndim
        out = []
        for i in range(n):
            key[a] = i
            out.append(tf_out(x[tuple(key)]))
        return out

    def split(x, n, axis=0, **k):
        x = as_t(x)
        a = tn.norm_axis(axis, x.ndim)[0]
        if isinstance(n, int):
            sz = [x.shape_[a] // n] * n
        else:
            sz = [int(s) for s in n]
        out, pos = [], 0
        for s in sz:
            key = [slice(None)] * x.ndim
            key[a] = slice(pos, pos + s)
            out.append(tf_out(x[tuple(key)]))
            pos += s
        return out

    def gather(params, indices, axis=None, batch_dims=0, name=None, validate_indices=None):
        p, i = tn.fz(params), tn.fz(indices)
        a = 0 if axis is None else tn.norm_axis(axis, p.ndim)[0]
        if batch_dims:
            raise Unsupported('gather batch_dims')
        pre, post = p.shape_[:a], p.shape_[a + 1:]
        nb = i.ndim

        def fn(*idx):
            v = i.at(*idx[a:a + nb])
            v = v.as_long() if z3.is_int_value(v) else v
            return p._fn(*(idx[:a] + (v,) + idx[a + nb:]))
        return T(pre + i.shape_ + post, tn.memo(fn), p.dtype_, False)

    def gather_nd(params, indices, batch_dims=0, name=None):
        p, i = tn.fz(params), tn.fz(indices)
        if batch_dims:
            raise Unsupported('gather_nd batch_dims')
        K = i.shape_[-1]
        if not isinstance(K, int):
            raise Unsupported('gather_nd depth')
        if K > p.ndim:
            raise ShapeError('index innermost dimension length must be <= params rank')
        nb = i.ndim - 1

        def fn(*idx):
            ii = []
            for q in range(K):
                v = i.at(*(idx[:nb] + (q,)))
                ii.append(v.as_long() if z3.is_int_value(v) else v)
            return p._fn(*(tuple(ii) + idx[nb:]))
        return T(i.shape_[:-1] + p.shape_[K:], tn.memo(fn), p.dtype_, False)

    def scatter_add(tensor, indices, updates, name=None):
        t, i, u = tn.fz(tensor), tn.fz(indices), tn.fz(updates)
        if i.ndim != 2 or not isinstance(i.shape_[1], int):
            raise Unsupported('scatter with nested indices')
        n, K = i.shape_
        if tn.dim_same(n, u.shape_[0]) is not True or u.ndim != 1 + t.ndim - K:
            raise ShapeError('scatter: updates do not match indices')

        def fn(*idx):
            def f(j):
                cs = [bzz(tn.ieq(normi(i.at(j, q)), idx[q])) for q in range(K)]
                return sym.e_if(z3.And(*cs), as_arith(u.at(*((j,) + tuple(idx[K:])))), z3.RealVal(0))
            return sym.e_add(t.at(*idx), tn.sum_e(dim_expr(n), f))
        return T(t.shape_, tn.memo(fn), t.dtype_, False)

    def normi(v):
        return v.as_long() if z3.is_int_value(v) else v

    def bzz(b):
        return z3.BoolVal(b) if isinstance(b, bool) else b

    def Assert(cond, data=None, **k):
        c = as_t(cond)
        if not c.__bool__():
            raise InvalidArgument('assertion failed')

    @contextlib.contextmanager
    def cd(x=None):
        yield

    @contextlib.contextmanager
    def name_scope(*a, **k):
        yield

    def function(f=None, **kw):
        if f is None:
            return lambda g: function(g, **kw)
        return f

    def clip(x, lo, hi, name=None, **k):
        lo = k.get('clip_value_min', lo)
        hi = k.get('clip_value_max', hi)
        return tf_out(ew(e_clip, x, lo, hi))

    def add_n(xs, name=None):
        if hasattr(xs, 'vc_seq') and not isinstance(xs, (list, tuple)):
            s = xs.vc_seq()
            t = tn.seq_tensor(s)
            return tf_out(tn.reduce_sum(t, 0))
        xs = list(xs)
        r = as_t(xs[0])
        for x in xs[1:]:
            x = as_t(x)
            if len(x.shape_) != len(r.shape_) or any(tn.dim_same(a, b) is not True for a, b in zip(x.shape_, r.shape_)):
                raise ShapeError('add_n: inputs must have the same shape')
            r = r + x
        return tf_out(r)

    def norm(x, ord='euclidean', axis=None, keepdims=False, name=None):
        x = as_t(x)
        return tf_out(ew(e_sqrt, tn.reduce_sum(x * x, axis, keepdims)))

    def shape_(x, **k):
        x = as_t(x)
        return tensorlike(tn.stack([as_t(d) for d in x.shape_], 0)) if x.ndim else T((0,), lambda i: z3.IntVal(0), None, False)

    def tsort(x, axis=-1, direction='ASCENDING', name=None):
        if direction != 'ASCENDING':
            raise Unsupported('descending sort')
        return tf_out(sort_values(as_t(x), axis))

    def linmatmul(a, b, transpose_a=False, transpose_b=False, **k):
        a, b = as_t(a), as_t(b)
        if transpose_a:
            a = tn.transpose(a, swap(a.ndim, -1, -2))
        if transpose_b:
            b = tn.transpose(b, swap(b.ndim, -1, -2))
        return tf_out(tn.matmul(a, b))

    def transpose(x, perm=None, **k):
        return tf_out(tn.transpose(as_t(x), perm))

    def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name=None):
        for p, f in pred_fn_pairs:
            if bool(p if isinstance(p, (bool, S)) else as_t(p)):
                return f()
        if default is None:
            raise InvalidArgument('no case matched')
        return default()

    def cond(p, t, f, name=None):
        if bool(p if isinstance(p, (bool, S)) else as_t(p)):
            return t()
        return f()

    def truncated_normal(shape, mean=0.0, stddev=1.0, dtype=None, **k):
        return tensorlike(tn.fresh_tensor('truncnorm', shp(shape)))

    def rnd_uniform(shape, minval=0, maxval=None, dtype=None, **k):
        return tensorlike(tn.fresh_tensor('tfuniform', shp(shape)))

    F.update(
        Tensor=Tensor, Module=Module, Variable=Variable, TensorSpec=TensorSpec, function=function, newaxis=None,
        TensorShape=lambda x: tn.TShape(x),
        reduce_sum=red(tn.reduce_sum), reduce_mean=red(reduce_mean), reduce_variance=red(reduce_var), reduce_std=red(reduce_std),
        reduce_min=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'MINR')), reduce_max=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'MAXR')),
        reduce_prod=red(lambda x, a, k: tn.reduce_ext(x, a, k, 'PRODR')),
        reduce_all=red(lambda x, a, k: tn.reduce_bool(x, a, k, 'all')), reduce_any=red(lambda x, a, k: tn.reduce_bool(x, a, k, 'any')),
        cast=cast, convert_to_tensor=convert, constant=lambda v, dtype=None, shape=None, name=None: convert(v, dtype),
        identity=lambda x, **k: tf_out(as_t(x)), stop_gradient=lambda x, **k: tf_out(as_t(x)),
        where=where, zeros=const(0), ones=const(1), zeros_like=like(0), ones_like=like(1),
        fill=lambda s, v: tensorlike(tn.broadcast_to(as_t(v), shp(s))), ensure_shape=ensure_shape,
        expand_dims=lambda x=None, axis=None, name=None, **k: tf_out(tn.expand_dims(as_t(x if x is not None else k['input']), axis)),
        squeeze=lambda x, axis=None, name=None: tf_out(tn.squeeze(as_t(x), axis)),
        reshape=lambda tensor=None, shape=None, name=None: tf_out(tn.reshape(as_t(tensor), shape)),
        stack=lambda values=None, axis=0, name=None: tf_out(tn.stack(list(values), axis)) if not (hasattr(values, 'vc_seq') and not isinstance(values, T)) else tf_out(stack_seq(values, axis)),
        concat=lambda values=None, axis=0, name=None: tf_out(tn.concat(values if hasattr(values, 'vc_seq') else list(values), axis)),
        unstack=unstack, split=split, tile=lambda x, multiples=None, name=None: tf_out(tn.tile(as_t(x), multiples)),
        gather=gather, gather_nd=gather_nd, tensor_scatter_nd_add=scatter_add, clip_by_value=clip, add_n=add_n, accumulate_n=add_n,
        shape=shape_, sort=tsort, argsort=lambda x, **k: tf_out(argsort(as_t(x))), matmul=linmatmul, transpose=transpose, case=case, cond=cond, norm=norm,
        broadcast_to=lambda x, s, **k: tf_out(tn.broadcast_to(as_t(x), shp(s))), cumsum=lambda x, axis=0, exclusive=False, **k: tf_out(tn.cumsum(as_t(x), axis, exclusive)),
        range=lambda n, *a, **k: T((dim(n),), lambda i: iz(i), 'int32', False),
        Assert=Assert, print=lambda *a, **k: None, control_dependencies=cd, name_scope=name_scope,
        is_tensor=lambda x: isinstance(x, T) and not x.np_like,
        boolean_mask=lambda x, m, axis=0, **k: tf_out(tn.boolean_mask(as_t(x), as_t(m), axis or 0)),
        float32=sym.DType('float32'), float64=sym.DType('float64'), int32=sym.DType('int32'), int64=sym.DType('int64'), bool=sym.DType('bool'), string=sym.DType('string'),
        double=sym.DType('float64'),
    )
    strict = dict(F)
    # names TensorFlow 2 does not export at top level
    for k in ('erf', 'erfinv', 'lgamma', 'softplus', 'elu', 'relu', 'log', 'is_nan', 'is_finite', 'is_inf', 'isnan', 'isfinite', 'isinf', 'sort_values',
              'power', 'arccos', 'arcsin', 'arctan', 'arctan2', 'absolute', 'deg2rad', 'radians', 'rad2deg', 'degrees', 'log10', 'log1p', 'expm1',
              'reduce_std', 'reduce_variance', 'mod', 'fmod', 'remainder', 'true_divide', 'divide_no_nan', 'accumulate_n', 'hypot', 'split_', 'negative_'):
        strict.pop(k, None)
    strict['divide'] = F['divide']
    tf = Namespace('tensorflow', **strict)
    tf.math = Namespace('tensorflow.math', **{k: v for k, v in F.items() if k in set(ELEM) | set(BIN) | {
        'acos', 'asin', 'atan', 'atan2', 'is_finite', 'is_nan', 'is_inf', 'pow', 'floormod', 'erf', 'erfinv', 'lgamma', 'softplus', 'sigmoid',
        'reduce_sum', 'reduce_mean', 'reduce_variance', 'reduce_std', 'reduce_min', 'reduce_max', 'reduce_prod', 'reduce_all', 'reduce_any',
        'accumulate_n', 'add_n', 'cumsum'}})
    tf.nn = Namespace('tensorflow.nn', elu=F['elu'], relu=F['relu'], softplus=F['softplus'], sigmoid=F['sigmoid'], tanh=F['tanh'])
    tf.linalg = Namespace('tensorflow.linalg', norm=norm, matmul=linmatmul)
    tf.debugging = Namespace('tensorflow.debugging', Assert=Assert)
    tf.random = Namespace('tensorflow.random', truncated_normal=truncated_normal, uniform=rnd_uniform, normal=truncated_normal, set_seed=lambda s: None)
    tf.errors = Namespace('tensorflow.errors', InvalidArgumentError=InvalidArgument)
    tf.keras = Namespace('tensorflow.keras')
    tf.compat = Namespace('tensorflow.compat')
    tf.optimizers = Namespace('tensorflow.optimizers')
    tf.optimizers.schedules = Namespace('schedules', LearningRateSchedule=LRBase)
    tf.data = Namespace('tensorflow.data')
    tf.summary = Namespace('tensorflow.summary', scalar=lambda *a, **k: None)
    tf.train = Namespace('tensorflow.train')
    tf.config = Namespace('tensorflow.config')
    tf.autograph = Namespace('autograph')
    tf.vc_all = F
    from . import autodiff
    autodiff.install(tf)
    return tf


class LRBase:
    def __init__(self, *a, **k):
        pass


def stack_seq(xs, axis):
    t = tn.seq_tensor(xs.vc_seq())
    if axis in (0,):
        return t
    a = axis % t.ndim if axis < 0 else axis
    perm = list(range(1, t.ndim))
    perm.insert(a, 0)
    return tn.transpose(t, perm)


def make_tfp(tf):
    tfp = Namespace('tensorflow_probability')
    tfp.math = Namespace('tfp.math', clip_by_value_preserve_gradient=tf.clip_by_value)
    return tfp


def make_scipy():
    special = Namespace('scipy.special',
                        erf=lambda x: scal(ew(lambda e: rfun('erf', e), x)),
                        erfinv=lambda x: scal(ew(lambda e: rfun('erfinv', e), x)),
                        gammaln=lambda x: scal(ew(lambda e: rfun('lgamma', e), x)))
    sp = Namespace('scipy', special=special)
    class LbfgsInvHessProduct:
        pass

    def minimize(*a, **k):
        raise Unsupported('scipy.optimize.minimize')
    sp.optimize = Namespace('scipy.optimize', LbfgsInvHessProduct=LbfgsInvHessProduct, minimize=minimize)
    sp.stats = Namespace('scipy.stats', chi2=lambda *a, **k: outside('chi2'))
    sp.stats.nbinom = Namespace('scipy.stats.nbinom')
    sp.interpolate = Namespace('scipy.interpolate')
    return sp


def make_models():
    np, tf = make_numpy(), make_tf()
    sp = make_scipy()
    pd = Namespace('pandas')
    log = Namespace('logging', getLogger=lambda *a, **k: Logger(), DEBUG=10, INFO=20, WARNING=30)
    m = {
        'numpy': np, 'numpy.linalg': np.linalg, 'numpy.random': np.random, 'tensorflow': tf, 'tensorflow_probability': make_tfp(tf),
        'scipy': sp, 'scipy.special': sp.special, 'scipy.optimize': sp.optimize, 'scipy.stats': sp.stats, 'scipy.stats.nbinom': sp.stats.nbinom,
        'scipy.interpolate': sp.interpolate,
        'pandas': pd, 'logging': log, 'matplotlib': Namespace('matplotlib'), 'matplotlib.pyplot': Namespace('plt'),
        'pkg_resources': Namespace('pkg_resources', working_set=[]),
        'tqdm': Namespace('tqdm', tqdm=lambda x, **k: x), 'git': git_stub(), 'h5py': Namespace('h5py'),
        'getclass': Namespace('getclass', getclass=type), 'click': click_stub(),
        'tfscripts': Namespace('tfscripts', layers=Namespace('tfscripts.layers')), 'tfscripts.layers': Namespace('tfscripts.layers'),
        'ruamel': Namespace('ruamel'), 'ruamel.yaml': Namespace('ruamel.yaml'),
    }
    m['tfscripts.weights'] = Namespace('tfscripts.weights', new_weights=lambda *a, **k: outside('new_weights'))
    from . import ice
    m.update(ice.make())
    m['tfscripts'].layers = m['tfscripts.layers']
    m['ruamel'].yaml = m['ruamel.yaml']
    return m


class Logger:
    def _n(self, *a, **k):
        return None
    info = debug = warning = error = critical = exception = setLevel = _n


def outside(what):
    raise Unsupported('%s is not modelled' % what)


def git_stub():
    class E(Exception):
        pass
    g = Namespace('git', InvalidGitRepositoryError=E, Repo=lambda *a, **k: (_ for _ in ()).throw(E()))
    g.exc = Namespace('git.exc', GitCommandError=E)
    return g


def click_stub():
    deco = lambda *a, **k: (lambda f: f)
    return Namespace('click', command=deco, option=deco, argument=deco, Path=lambda *a, **k: None)
