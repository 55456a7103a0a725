"""numpy for code on small arrays of fixed shape: real numpy arrays (dtype
object) whose elements are symbolic values.  Shapes, slicing, broadcasting,
structured fields and aliasing are numpy's own; only what depends on element
values (comparisons, selections by symbolic indices or masks, reductions,
elementary functions) is defined here.  Proof side only."""
import numpy as np
from contracts.common import OutsideContract
from pyvc import sym
from pyvc.sym import S


def z(x):
    return sym.to_z3(x)


def is_s(x):
    return isinstance(x, S)


def ite(c, a, b):
    if not is_s(c):
        return a if c else b
    if a is b:
        return a
    return sym.wrap(sym.e_if(sym.as_bool(z(c)), z(a), z(b)))


def neg(x):
    return ~x if is_s(x) else not x


def both(a, b):
    if is_s(a) and is_s(b):
        return a & b
    if is_s(a):
        return a if b else False
    return b if a else False


def either(a, b):
    return neg(both(neg(a), neg(b)))


def every(xs):
    r = True
    for x in xs:
        r = both(r, x)
    return r


def some(xs):
    return neg(every(neg(x) for x in xs))


def symbolic(a):
    """an object array with at least one symbolic element"""
    return isinstance(a, np.ndarray) and a.dtype == object and any(is_s(x) for x in a.ravel().view(np.ndarray))


def plain(a):
    """an object array of concrete indices or flags as a numpy array"""
    v = [bool(x) if isinstance(x, (bool, np.bool_)) else int(x) for x in a.ravel().view(np.ndarray)]
    return np.array(v, dtype=bool if v and isinstance(v[0], bool) else int).reshape(a.shape)


def kind(a):
    for x in a.ravel().view(np.ndarray):
        if is_s(x):
            return 'mask' if z(x).sort() == sym.BS else 'index'
        return 'mask' if isinstance(x, (bool, np.bool_)) else 'index'


class Masked:
    """the elements of an array selected by a symbolic mask"""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def _op(self, f, o):
        if isinstance(o, Masked):
            same_mask(self, o.mask)
            o = o.arr
        elif isinstance(o, np.ndarray) and o.ndim:
            raise OutsideContract('operand of a masked selection')
        return Masked(f(self.arr, o), self.mask)

    def __add__(self, o): return self._op(lambda a, b: a + b, o)
    def __sub__(self, o): return self._op(lambda a, b: a - b, o)
    def __mul__(self, o): return self._op(lambda a, b: a * b, o)
    def __truediv__(self, o): return self._op(lambda a, b: a / b, o)
    __radd__, __rmul__ = __add__, __mul__

    def _unknown(self, *a):
        raise OutsideContract('use of a selection by a symbolic mask')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __array__ = _unknown
    __hash__ = None

    def __getattr__(self, k):
        self._unknown()


def same_mask(m, mask):
    if m.mask.shape != mask.shape or any(x is not y and not (is_s(x) and is_s(y) and z(x).eq(z(y))) for x, y in zip(m.mask.ravel(), mask.ravel())):
        raise OutsideContract('selections by different masks')


def pick(arr, i):
    """row i (symbolic) of arr"""
    rows = [arr[k] for k in range(len(arr))]
    if not rows:
        raise IndexError('index of an empty array')
    return merge([(i == k, r) for k, r in enumerate(rows)])


def merge(cases):
    """the value of the first case that holds (the last one otherwise)"""
    r = cases[-1][1]
    if not isinstance(r, (np.ndarray, np.void)):
        for c, x in reversed(cases[:-1]):
            r = ite(c, x, r)
        return r
    out = np.empty(r.shape, dtype=r.dtype).view(OA)
    for f in r.dtype.names or (None,):
        get = (lambda a: a[f]) if f else (lambda a: a)
        flat = [(c, np.asarray(get(x), dtype=object).ravel()) for c, x in cases]
        vals = []
        for j in range(int(np.prod(r.shape))):
            v = flat[-1][1][j]
            for c, x in reversed(flat[:-1]):
                v = ite(c, x[j], v)
            vals.append(v)
        col = np.empty(len(vals), dtype=object)
        col[:] = vals
        if f:
            np.ndarray.__setitem__(out, f, col.reshape(r.shape))
        else:
            np.ndarray.__setitem__(out, Ellipsis, col.reshape(r.shape))
    return out


class OA(np.ndarray):
    def each_value(self, f):
        return pointwise(f, self)

    def _key(self, key):
        if isinstance(key, np.flatiter):
            key = np.array(list(key), dtype=object).view(OA)
        if isinstance(key, list) and any(is_s(k) for k in key):
            key = obj(key)
        if isinstance(key, np.ndarray) and key.dtype == object and not symbolic(key):
            key = plain(key)
        if isinstance(key, tuple):
            if any(is_s(k) or symbolic(k) for k in key):
                raise OutsideContract('symbolic index in several dimensions')
            key = tuple(plain(k) if isinstance(k, np.ndarray) and k.dtype == object else k for k in key)
        return key

    def __getitem__(self, key):
        key = self._key(key)
        if is_s(key):
            if z(key).sort() == sym.BS:
                return self[bool(key)]
            bounds(key, len(self))
            return pick(self, key)
        if symbolic(key):
            if kind(key) == 'mask':
                if key.shape != self.shape[:key.ndim]:
                    raise IndexError('mask of another shape')
                if key.size <= 2:       # decided case by case
                    return self[decided(key)]
                return Masked(self.copy(), key)
            rows = [self[k] for k in key.ravel()]
            out = np.empty((len(rows),) + self.shape[1:], dtype=self.dtype).view(OA)
            for i, r in enumerate(rows):
                np.ndarray.__setitem__(out, i, r)
            return out.reshape(key.shape + self.shape[1:])
        r = np.ndarray.__getitem__(self, key)
        return r

    def __setitem__(self, key, value):
        key = self._key(key)
        if is_s(key):
            if z(key).sort() == sym.BS:
                self[bool(key)] = value
                return
            bounds(key, len(self))
            for k in range(len(self)):
                old = self[k]
                new = np.empty((), dtype=self.dtype).view(OA) if self.ndim == 1 else np.empty(self.shape[1:], dtype=self.dtype).view(OA)
                if self.ndim == 1 and not self.dtype.names:
                    np.ndarray.__setitem__(self, k, merge([(key == k, value), (True, old)]))
                    continue
                np.ndarray.__setitem__(new, Ellipsis, value)
                np.ndarray.__setitem__(self, k, merge([(key == k, new), (True, old.copy())]))
            return
        if symbolic(key):
            if kind(key) == 'mask' and key.size <= 2:
                self[decided(key)] = value
                return
            if kind(key) == 'mask':
                if isinstance(value, Masked):
                    same_mask(value, key)
                    value = value.arr
                elif isinstance(value, np.ndarray) and value.ndim:
                    raise OutsideContract('values for a symbolic mask')
                if self.dtype.names:
                    raise OutsideContract('records selected by a symbolic mask')
                src, k = np.broadcast_to(np.asarray(value, dtype=object), self.shape), key.reshape(key.shape + (1,) * (self.ndim - key.ndim))
                k = np.broadcast_to(np.asarray(k, dtype=object), self.shape)
                new = np.empty(self.shape, dtype=object)
                for i in np.ndindex(*self.shape):
                    new[i] = ite(k[i], src[i], self.view(np.ndarray)[i])
                np.ndarray.__setitem__(self, Ellipsis, new)
                return
            v = value if isinstance(value, np.ndarray) and value.shape[:1] == key.shape[:1] and value.ndim == self.ndim else None
            if key.ndim != 1:
                raise OutsideContract('assignment by a matrix of indices')
            for i, k in enumerate(key):
                self[k] = value if v is None else v[i]
            return
        np.ndarray.__setitem__(self, key, value)

    def _cmp(self, o, f):
        return pointwise(f, self, o)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: neg(a == b))
    __hash__ = None
    def __and__(self, o): return self._cmp(o, both)
    def __or__(self, o): return self._cmp(o, either)
    def __invert__(self): return pointwise(neg, self)
    def any(self, *a, **k): return Numpy.any(self, *a, **k)
    def all(self, *a, **k): return Numpy.all(self, *a, **k)
    def sum(self, axis=None): return Numpy.sum(self, axis)
    def min(self, axis=None): return Numpy.min(self, axis)
    def max(self, axis=None): return Numpy.max(self, axis)
    def mean(self, axis=None): return Numpy.mean(self, axis)
    def std(self, axis=None, **k): return Numpy.std(self, axis, **k)
    def argmin(self, axis=None): return Numpy.argmin(self, axis)
    def argsort(self, *a, **k): return Numpy.argsort(self, *a, **k)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        return bool(self.ravel().view(np.ndarray)[0])

    def astype(self, *a, **k):
        return self.copy()


def decided(mask):
    return np.array([bool(x) for x in mask.ravel().view(np.ndarray)], dtype=bool).reshape(mask.shape)


def bounds(i, n):
    """an index in range; negative indices would select from the end"""
    import z3
    c = sym.ctx()
    s = z3.Solver()
    s.set('timeout', 2000)
    for p in c.pc:
        if integers(p):
            s.add(p)
    s.add(sym.as_bool(z(either(i < 0, i >= n))))
    if s.check() != z3.unsat:
        raise OutsideContract('index that is not known to be in range')


INTEGERS = {}


def integers(e):
    """a condition on integers only"""
    import z3
    k = e.get_id()
    if k not in INTEGERS:
        INTEGERS[k] = (e, e.sort() in (z3.IntSort(), z3.BoolSort()) and (not z3.is_const(e) or e.sort() == z3.IntSort() or z3.is_true(e) or z3.is_false(e))
                       and all(integers(x) for x in e.children()))
    return INTEGERS[k][1]


def obj(values):
    """nested lists of values as an array"""
    if isinstance(values, OA):
        return values
    if isinstance(values, np.ndarray):
        return values.astype(object).view(OA) if values.dtype.names is None else values.view(OA)
    values = list(values)
    if values and isinstance(values[0], (list, tuple, np.ndarray)):
        rows = [obj(v) for v in values]
        out = np.empty((len(rows),) + rows[0].shape, dtype=rows[0].dtype).view(OA)
        for i, r in enumerate(rows):
            np.ndarray.__setitem__(out, i, r)
        return out
    out = np.empty(len(values), dtype=object)
    out[:] = values
    return out.view(OA)


def arr(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        return obj(x)
    out = np.empty((), dtype=object)
    out[()] = x
    return out.view(OA)


def pointwise(f, *xs):
    xs = [np.asarray(x, dtype=object) if not is_s(x) else x for x in (arr(x).view(np.ndarray) for x in xs)]
    shape = np.broadcast_shapes(*[x.shape for x in xs])
    out = np.empty(shape, dtype=object)
    bs = [np.broadcast_to(x, shape) for x in xs]
    for i in np.ndindex(*shape):
        out[i] = f(*[b[i] for b in bs])
    return out.view(OA) if shape else out[()]


def reduce(f):
    """a reduction of a list of values, over one axis or all"""
    def g(a, axis=None, **k):
        if 'dtype' in k and not symbolic(arr(a)):       # numbers only: as numpy counts them
            del k['dtype']
        if k.pop('keepdims', False) or k.pop('ddof', 0) or [x for x in k.values() if x is not None]:
            raise OutsideContract('options of a reduction')
        a = arr(a)
        if axis is None:
            return f(list(a.ravel().view(np.ndarray)))
        a = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(list(a[i]))
        return out.view(OA) if out.ndim else out[()]
    return staticmethod(g)


def r_sum(v):
    return sum(v[1:], v[0]) if v else 0.


def smallest(v):
    m = v[0]
    for x in v[1:]:
        m = ite(x < m, x, m)
    return m


def largest(v):
    m = v[0]
    for x in v[1:]:
        m = ite(x > m, x, m)
    return m


def count(v):
    return sum([ite(x, 1, 0) for x in v if x is not False], 0)


def spread(v):
    """standard deviation: some function of the values"""
    return S(sym.rfun('spread%d' % len(v), *[sym.as_real(z(x)) for x in v])) if v else 0.


def elementary(name):
    def f(x):
        if not is_s(x):
            return getattr(np, name)(float(x))
        t = sym.ctx().world_np
        return getattr(t, name)(x)
    return staticmethod(lambda x: pointwise(f, x))


def const(a):
    """elements that are not symbolic stay what numpy makes of them"""
    return a


class Numpy:
    """the module `np` as seen by the code under contract"""
    pi, newaxis, inf, nan, ndarray, dtype = np.pi, np.newaxis, np.inf, np.nan, np.ndarray, np.dtype
    float32 = float64 = np.float64
    integer, floating, ndindex = np.integer, np.floating, np.ndindex

    def __getattr__(self, k):
        raise OutsideContract('numpy.%s is not described' % k)

    sum = reduce(r_sum)
    min = amin = reduce(smallest)
    max = amax = reduce(largest)
    all = reduce(every)
    any = reduce(some)
    mean = reduce(lambda v: r_sum(v) / len(v))
    count_nonzero = reduce(count)
    std = reduce(spread)
    sin, cos, arccos, sqrt = elementary('sin'), elementary('cos'), elementary('arccos'), elementary('sqrt')
    arcsin, tan, exp, log = elementary('arcsin'), elementary('tan'), elementary('exp'), elementary('log')

    @staticmethod
    def arctan2(y, x):
        return pointwise(lambda a, b: sym.ctx().world_np.arctan2(a, b), y, x)

    @staticmethod
    def logical_and(a, b): return pointwise(both, a, b)
    @staticmethod
    def logical_or(a, b): return pointwise(either, a, b)
    @staticmethod
    def logical_not(a): return pointwise(neg, a)
    @staticmethod
    def less(a, b): return pointwise(lambda x, y: x < y, a, b)
    @staticmethod
    def square(a): return pointwise(lambda x: x * x, a)
    @staticmethod
    def mod(a, b): return pointwise(lambda x, y: x % y, a, b)
    @staticmethod
    def abs(a): return pointwise(abs, a)
    @staticmethod
    def minimum(a, b): return pointwise(lambda x, y: ite(y < x, y, x), a, b)
    @staticmethod
    def maximum(a, b): return pointwise(lambda x, y: ite(y > x, y, x), a, b)
    @staticmethod
    def where(c, a, b): return pointwise(ite, c, a, b)

    @staticmethod
    def clip(a, lo, hi):
        return pointwise(lambda x: ite(x < lo, lo, ite(x > hi, hi, x)) if is_s(x) else min(max(x, lo), hi), a)

    @staticmethod
    def empty(shape, dtype=None):
        return Numpy.zeros(shape, dtype)

    @staticmethod
    def zeros(shape, dtype=None):
        if isinstance(dtype, np.dtype) and dtype.names:
            return np.zeros(shape, dtype=dtype).view(OA)
        if dtype in (int, bool):
            return np.zeros(shape, dtype=dtype)
        return Numpy.full(shape, 0.)

    @staticmethod
    def ones(shape, dtype=None):
        return Numpy.full(shape, 1.)

    @staticmethod
    def full(shape, fill_value, dtype=None):
        if dtype in (int, bool) or dtype is None and isinstance(fill_value, (int, bool)):
            return np.full(shape, fill_value)       # integers are kept as numpy does
        out = np.empty(shape, dtype=object)
        out[...] = fill_value
        return out.view(OA)

    @staticmethod
    def zeros_like(a):
        return Numpy.zeros(a.shape, a.dtype if a.dtype.names else None)

    empty_like = zeros_like

    @staticmethod
    def array(x, dtype=None):
        if not isinstance(x, np.ndarray) and not any(is_s(v) for v in np.array(x, dtype=object).ravel()) and dtype is None:
            return np.array(x)
        return arr(x).copy()

    asarray = array

    @staticmethod
    def copy(x):
        return arr(x).copy()

    @staticmethod
    def vstack(xs):
        return np.vstack([arr(x).view(np.ndarray) for x in xs]).view(OA)

    @staticmethod
    def stack(xs, axis=0):
        return np.stack([arr(x).view(np.ndarray) for x in xs], axis).view(OA)

    @staticmethod
    def concatenate(xs, axis=0):
        return np.concatenate([arr(x).view(np.ndarray) for x in xs], axis).view(OA)

    @staticmethod
    def reshape(a, shape):
        return arr(a).reshape(shape)

    @staticmethod
    def arange(*a):
        return np.arange(*a)

    @staticmethod
    def argmin(a, axis=None):
        if axis is not None and arr(a).ndim != 1:
            raise OutsideContract('argmin over an axis')
        v = list(arr(a).ravel().view(np.ndarray))
        c = sym.ctx()
        i = c.int('argmin', 0, len(v))
        for r in range(len(v)):
            c.assume(either(neg(i == r), every([both(v[r] <= x, True) if k > r else (v[r] < x) for k, x in enumerate(v) if k != r])))
        return i

    @staticmethod
    def argsort(a, axis=-1, kind=None):
        v = list(arr(a).view(np.ndarray))
        if arr(a).ndim != 1:
            raise OutsideContract('argsort of a matrix')
        if len(v) == 1:
            return np.array([0])
        c = sym.ctx()
        idx = [c.int('order', 0, len(v)) for _ in v]
        for i in range(len(v)):
            for j in range(i):
                c.assume(neg(idx[i] == idx[j]))
        vals = obj(v)
        for i in range(len(v) - 1):
            for r in range(len(v)):
                for s in range(len(v)):
                    if r != s:
                        c.assume(either(neg(both(idx[i] == r, idx[i + 1] == s)), v[r] <= v[s]))
        return obj(idx)
