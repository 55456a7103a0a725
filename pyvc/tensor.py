"""Pointwise symbolic tensors: shape + index function."""
import itertools
import numpy as np
import z3
from . import sym
from .sym import (S, Unsupported, ctx, to_z3, wrap, RS, IS, BS, as_real,
                  as_arith, as_bool, e_if)


class ShapeError(ValueError):
    """Raised where numpy / TensorFlow would reject the operand shapes."""


# --- index terms: python int or z3 Int expression ------------------------------
def ix(x):
    if isinstance(x, S):
        x = x.e
    if isinstance(x, (bool, np.bool_)):
        raise Unsupported('bool index')
    if isinstance(x, (int, np.integer)):
        return int(x)
    if z3.is_expr(x):
        if z3.is_int_value(x):
            return x.as_long()
        return x
    raise Unsupported('index %r' % (x,))


def iz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return iz(a) + iz(b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(iz(a) - iz(b)) if not isinstance(a, int) else iz(a) - iz(b)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and a == 1:
        return b
    return iz(a) * iz(b)


def ieq(a, b):
    """z3 Bool / python bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return iz(a) == iz(b)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return iz(a) < iz(b)


def bz(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def iif(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, iz(a), iz(b))


# --- dimensions ------------------------------------------------------------------
def dim(x):
    """normalise a dimension: int or S(Int)"""
    if isinstance(x, S):
        c = sym.const_num(z3.simplify(x.e))
        return int(c) if c is not None else x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, T) and x.shape == ():
        return dim(x.item_scalar())
    raise Unsupported('dimension %r' % (x,))


def dim_same(a, b):
    """True if provably equal, False if provably different, None unknown"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ea, eb = to_z3(a), to_z3(b)
    if ea.eq(eb):
        return True
    if ctx().known(ea == eb):
        return True
    if ctx().known(ea != eb):
        return False
    return None


def dim_expr(d):
    return d if isinstance(d, int) else d.e


def bdim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise ShapeError('operands could not be broadcast: %s vs %s' % (a, b))
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    s = dim_same(a, b)
    if s:
        return a if isinstance(a, int) or not isinstance(b, int) else b
    # a symbolic dimension may be 1 at run time; the contract decides
    one_a = not isinstance(a, int) and ctx().known(a.e == 1)
    one_b = not isinstance(b, int) and ctx().known(b.e == 1)
    if one_a:
        return b
    if one_b:
        return a
    raise ShapeError('operands could not be broadcast: %s vs %s' % (a, b))


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            i = k - (n - len(s))
            if i >= 0:
                d = bdim(d, s[i])
        out.append(d)
    return tuple(out)


class TShape(tuple):
    """tf.TensorShape / numpy shape stand-in"""
    def as_list(self):
        return list(self)

    @property
    def rank(self):
        return len(self)

    @property
    def dims(self):
        return list(self)

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return TShape(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return TShape(tuple(self) + tuple(o))

    def __eq__(self, o):
        o = tuple(o)
        if len(o) != len(self):
            return False
        for a, b in zip(self, o):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            elif a is None or b is None:
                if a is not b:
                    return False
            elif not bool(S(to_z3(a) == to_z3(b))):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def is_compatible_with(self, o):
        return True


_kinds = {'b': 'bool', 'i': 'int64', 'f': 'float64'}


class T:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, fn, dtype=None, np_like=True, base=None, name=None):
        self.shape_ = tuple(dim(d) for d in shape)
        self._f = fn
        self._vw = None       # view: maps the base's element function to mine
        self._vk = None       # view: key into the base
        self.dtype_ = dtype
        self.np_like = np_like
        self.base = base
        self.name = name
        self._sort = None

    # -- basics --
    @property
    def _fn(self):
        if self._vw is None:
            return self._f
        src = self.base._fn
        if self._f is None or self._f[0] is not src:
            self._f = (src, self._vw(src))
        return self._f[1]

    @_fn.setter
    def _fn(self, fn):
        if self._vw is not None:
            raise Unsupported('in-place update of an array view')
        self._f = fn

    def frozen(self):
        return T(self.shape_, self._fn, self.dtype_, self.np_like)

    @property
    def shape(self):
        return TShape(self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = 1
        for d in self.shape_:
            r = d * r
        return r

    def get_shape(self):
        return self.shape

    def set_shape(self, s):
        return None

    @property
    def dtype(self):
        if self.dtype_ is None:
            self.dtype_ = _kinds[self.kind()]
        if isinstance(self.dtype_, str):
            return sym.DType(self.dtype_)
        return self.dtype_

    def kind(self):
        s = self.sort()
        return 'b' if s == BS else 'i' if s == IS else 'f'

    def sort(self):
        if self._sort is None:
            probe = [z3.Int('?p%d' % i) if not isinstance(d, int) or d == 0 else 0
                     for i, d in enumerate(self.shape_)]
            self._sort = self.at(*probe).sort()
        return self._sort

    def at(self, *idx):
        e = self._fn(*idx)
        if isinstance(e, (bool, int, float)) or not z3.is_expr(e):
            e = to_z3(e)
        return e

    def snapshot(self):
        fn = self._fn
        return fn

    def item_scalar(self):
        if self.shape_ != ():
            if all(isinstance(d, int) and d == 1 for d in self.shape_):
                return wrap(self.at(*([0] * self.ndim)))
            raise Unsupported('scalar value of a tensor')
        return wrap(self.at())

    def item(self):
        return self.item_scalar()

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape_):
            v = self.at(*([0] * self.ndim))
            return ctx().branch(as_bool(v))
        raise ValueError('The truth value of an array is ambiguous')

    def __index__(self):
        if self.shape_ == ():
            return ctx().concretize(self.at())
        raise TypeError('only integer scalar arrays can be converted to an index')

    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        d = self.shape_[0]
        if isinstance(d, int):
            return d
        raise Unsupported('native len() of symbolic tensor')

    def vc_len(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return self.shape_[0]

    def __hash__(self):
        return id(self)

    def __iter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d tensor')
        d = self.shape_[0]
        if not isinstance(d, int):
            raise Unsupported('native iteration over symbolic tensor')
        return iter([self[i] for i in range(d)])

    def vc_seq(self):
        from .seq import SSeq
        return SSeq(self.shape_[0], lambda k: self[S(iz(ix(k)))])

    def __repr__(self):
        return '<T%s>' % (self.shape_,)

    def __format__(self, spec):
        return repr(self)

    def numpy(self):
        return T(self.shape_, self._fn, self.dtype_, True)

    def ref(self):
        return self

    def copy(self):
        return self.frozen()

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, d, copy=True):
        fn = self._fn
        if sym.dtype_kind(d) == self.kind():
            return T(self.shape_, fn, dname(d), self.np_like)
        return T(self.shape_, lambda *i: sym.cast_e(fn(*i), d), dname(d), self.np_like)

    # -- elementwise --
    def __add__(self, o): return ew(sym.e_add, self, o)
    def __radd__(self, o): return ew(sym.e_add, o, self)
    def __sub__(self, o): return ew(sym.e_sub, self, o)
    def __rsub__(self, o): return ew(sym.e_sub, o, self)
    def __mul__(self, o): return ew(sym.e_mul, self, o)
    def __rmul__(self, o): return ew(sym.e_mul, o, self)
    def __truediv__(self, o): return ew(sym.e_div, self, o)
    def __rtruediv__(self, o): return ew(sym.e_div, o, self)
    def __pow__(self, o): return ew(sym.e_pow, self, o)
    def __rpow__(self, o): return ew(sym.e_pow, o, self)
    def __mod__(self, o): return ew(sym.e_mod, self, o)
    def __floordiv__(self, o): return ew(sym.e_floordiv, self, o)
    def __neg__(self): return ew(lambda a: sym.e_sub(z3.IntVal(0), a), self)
    def __pos__(self): return self
    def __abs__(self): return ew(sym.e_abs, self)
    def __lt__(self, o): return ew(sym.e_lt, self, o)
    def __le__(self, o): return ew(sym.e_le, self, o)
    def __gt__(self, o): return ew(sym.e_lt, o, self)
    def __ge__(self, o): return ew(sym.e_le, o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, type)):
            return False
        return ew(sym.e_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, type)):
            return True
        return ew(lambda a, b: z3.Not(sym.e_eq(a, b)), self, o)

    def __and__(self, o): return ew(lambda a, b: z3.And(as_bool(a), as_bool(b)), self, o)
    __rand__ = __and__
    def __or__(self, o): return ew(lambda a, b: z3.Or(as_bool(a), as_bool(b)), self, o)
    __ror__ = __or__
    def __xor__(self, o): return ew(lambda a, b: z3.Xor(as_bool(a), as_bool(b)), self, o)
    def __invert__(self): return ew(lambda a: z3.Not(as_bool(a)), self)

    def __matmul__(self, o):
        return matmul(self, o)

    def _inplace(self, o, f):
        r = ew(f, self, o)
        if not self.np_like:
            return r
        if len(r.shape_) != len(self.shape_):
            raise ShapeError('non-broadcastable output operand')
        for a, b in zip(r.shape_, self.shape_):
            if dim_same(a, b) is not True:
                raise ShapeError('non-broadcastable output operand')
        self._assign(r._fn)
        return self

    def _assign(self, fn):
        if self._vw is not None:
            write_view(self, T(self.shape_, fn, None, True))
            return
        if self.kind() == 'f':
            self._fn = lambda *i: as_real(fn(*i))
        elif self.kind() == 'i':
            self._fn = lambda *i: sym.e_toint(fn(*i))
        else:
            self._fn = fn

    def __iadd__(self, o): return self._inplace(o, sym.e_add)
    def __isub__(self, o): return self._inplace(o, sym.e_sub)
    def __imul__(self, o): return self._inplace(o, sym.e_mul)
    def __itruediv__(self, o): return self._inplace(o, sym.e_div)
    def __iand__(self, o): return self._inplace(o, lambda a, b: z3.And(as_bool(a), as_bool(b)))
    def __ior__(self, o): return self._inplace(o, lambda a, b: z3.Or(as_bool(a), as_bool(b)))

    # -- indexing --
    def __getitem__(self, k):
        return getitem(self, k)

    def __setitem__(self, k, v):
        setitem(self, k, v)

    # -- reductions and friends (numpy methods) --
    def sum(self, axis=None, dtype=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return reduce_mean(self, axis, keepdims)

    def any(self, axis=None, keepdims=False):
        return reduce_bool(self, axis, keepdims, 'any')

    def all(self, axis=None, keepdims=False):
        return reduce_bool(self, axis, keepdims, 'all')

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return reshape(self, shape)

    def flatten(self):
        return reshape(self, [-1])

    ravel = flatten

    @property
    def T(self):
        return transpose(self)

    @property
    def values(self):
        return self

    def tolist(self):
        if isinstance(self.shape_[0], int):
            return [self[i] for i in range(self.shape_[0])]
        raise Unsupported('tolist of symbolic tensor')

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def dot(self, o):
        return matmul(self, o)

    def min(self, axis=None):
        return reduce_ext(self, axis, False, 'MINR')

    def max(self, axis=None):
        return reduce_ext(self, axis, False, 'MAXR')


def dname(d):
    if d is None:
        return None
    d = getattr(d, 'vc_real', d)
    if isinstance(d, str):
        return d
    if isinstance(d, sym.DType):
        return d.name
    if d is bool:
        return 'bool'
    if d is int:
        return 'int64'
    if d is float:
        return 'float64'
    n = getattr(d, '__name__', None) or getattr(d, 'name', None) or str(d)
    return str(n)


def is_symbolic(x):
    if isinstance(x, (S, T)):
        return True
    if hasattr(x, 'vc_seq'):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(v) for v in x)
    return False


def as_t(x):
    """anything numeric -> T"""
    if isinstance(x, T):
        return x
    if isinstance(x, S):
        e = x.e
        return T((), lambda: e)
    if isinstance(x, np.ndarray):
        arr = x
        if arr.size > 200 and arr.dtype != object:
            return const_tensor(arr)
        if arr.dtype == object:
            flat = {i: to_z3(arr[i]) for i in np.ndindex(arr.shape)}
            return from_table(arr.shape, flat)
        flat = {i: to_z3(arr[i].item()) for i in np.ndindex(arr.shape)}
        return from_table(arr.shape, flat, str(arr.dtype))
    if isinstance(x, (bool, int, float, np.generic)):
        e = to_z3(x)
        return T((), lambda: e)
    if isinstance(x, (list, tuple)):
        parts = [as_t(v) for v in x]
        if not parts:
            return T((0,), lambda i: z3.RealVal(0))
        return stack(parts, 0)
    if hasattr(x, 'vc_tensor'):
        return x.vc_tensor()
    if hasattr(x, 'vc_seq'):
        return seq_tensor(x.vc_seq())
    if x is None:
        raise TypeError('None is not a tensor')
    raise Unsupported('tensor from %r' % (type(x),))


_const_ids = {}


def const_tensor(arr, name=None):
    """a large constant array: literal at concrete indices, an uninterpreted
    function of the (symbolic) indices otherwise"""
    import hashlib
    key = hashlib.sha1(np.ascontiguousarray(arr).tobytes()).hexdigest()[:10]
    kind = arr.dtype.kind
    srt = BS if kind == 'b' else IS if kind in 'iu' else RS
    f = z3.Function('const_%s' % key, *([IS] * arr.ndim), srt)

    def fn(*idx):
        if all(isinstance(i, int) for i in idx):
            return to_z3(arr[idx].item())
        return f(*[iz(i) for i in idx])
    return T(arr.shape, fn, str(arr.dtype))


def seq_tensor(seq):
    """SSeq of scalars / tensors -> T with leading symbolic dimension"""
    from .sym import S as _S
    probe = seq.at(z3.Int('?q'))
    pt = as_t(probe)
    shape = pt.shape_
    def fn(i, *rest):
        return as_t(seq.at(i)).at(*rest)
    return T((seq.n,) + shape, fn, pt.dtype_)


def from_table(shape, flat, dtype=None):
    shape = tuple(shape)
    if flat:
        sorts = {v.sort() for v in flat.values()}
        if len(sorts) > 1:
            flat = {k: as_real(v) for k, v in flat.items()}
    else:
        return T(shape, lambda *i: z3.RealVal(0), dtype)

    def fn(*idx):
        def rec(prefix, k):
            if k == len(shape):
                return flat[tuple(prefix)]
            i = idx[k]
            if isinstance(i, int):
                return rec(prefix + [i], k + 1)
            n = shape[k]
            r = rec(prefix + [n - 1], k + 1)
            for j in range(n - 2, -1, -1):
                r = e_if(iz(i) == j, rec(prefix + [j], k + 1), r)
            return r
        return rec([], 0)
    return T(shape, fn, dtype)


def ew(f, *args, dtype=None):
    ts = []
    for a in args:
        if a is None:
            raise TypeError('unsupported operand type: NoneType')
        ts.append(as_t(a))
    shape = broadcast_shapes(*[t.shape_ for t in ts])
    n = len(shape)
    if any(isinstance(a, T) and not a.np_like for a in args):
        np_like = False
    else:
        np_like = True
    parts = [(t._fn, t.shape_, n - len(t.shape_)) for t in ts]

    def fn(*idx):
        vals = []
        for g, sh, off in parts:
            ii = []
            for k, d in enumerate(sh):
                if isinstance(d, int) and d == 1 and not (
                        isinstance(shape[k + off], int) and shape[k + off] == 1):
                    ii.append(0)
                elif isinstance(d, int) and d == 1:
                    ii.append(0)
                else:
                    ii.append(idx[k + off])
            v = g(*ii)
            if not z3.is_expr(v):
                v = to_z3(v)
            vals.append(v)
        return f(*vals)
    return T(shape, memo(fn), dtype, np_like)


def memo(fn):
    cache = {}

    def g(*idx):
        k = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
        r = cache.get(k)
        if r is None:
            r = (fn(*idx), idx)
            cache[k] = r
        return r[0]
    return g


def norm_axis(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        r = []
        for a in axis:
            r += norm_axis(a, n)
        return sorted(r)
    a = int(axis)
    if a < -n or a >= n:
        raise ShapeError('axis %d is out of bounds for rank %d' % (a, n))
    return [a % n]


_bv = [0]


def new_bv():
    """bound variable names depend only on nesting depth"""
    return z3.Int('?b%d' % _bv[0])


EXPAND = 24


def sum_e(n, f):
    """z3 term for sum_{j<n} f(j); f maps index term -> z3 expr"""
    n = ix(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n <= EXPAND:
        r = z3.IntVal(0)
        for j in range(n):
            r = sym.e_add(r, as_arith(f(j)))
        return r
    _bv[0] += 1
    try:
        b = new_bv()
        body = as_real(f(b))
    finally:
        _bv[0] -= 1
    return SUM(z3.Lambda([b], body), iz(n))


SUM = z3.Function('SUM', z3.ArraySort(IS, RS), IS, RS)
MAXR = z3.Function('MAXR', z3.ArraySort(IS, RS), IS, RS)
MINR = z3.Function('MINR', z3.ArraySort(IS, RS), IS, RS)
PRODR = z3.Function('PRODR', z3.ArraySort(IS, RS), IS, RS)
EXTS = {'MAXR': MAXR, 'MINR': MINR, 'PRODR': PRODR}


def forall_e(n, f):
    n = ix(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n <= EXPAND:
        return z3.And(*[as_bool(f(j)) for j in range(n)]) if n else z3.BoolVal(True)
    _bv[0] += 1
    try:
        b = new_bv()
        body = as_bool(f(b))
    finally:
        _bv[0] -= 1
    return z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < iz(n)), body))


def exists_e(n, f):
    return z3.Not(forall_e(n, lambda j: z3.Not(as_bool(f(j)))))


def ext_e(name, n, f):
    n = ix(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n <= EXPAND:
        if n == 0:
            if name == 'PRODR':
                return z3.RealVal(1)
            raise ValueError('zero-size array to reduction operation')
        r = as_arith(f(0))
        for j in range(1, n):
            v = as_arith(f(j))
            if name == 'PRODR':
                r = sym.e_mul(r, v)
            elif name == 'MAXR':
                r = e_if(sym.e_lt(r, v), v, r)
            else:
                r = e_if(sym.e_lt(v, r), v, r)
        return r
    _bv[0] += 1
    try:
        b = new_bv()
        body = as_real(f(b))
    finally:
        _bv[0] -= 1
    return EXTS[name](z3.Lambda([b], body), iz(n))


def _reduce(t, axis, keepdims, red):
    t = as_t(t)
    axes = norm_axis(axis, t.ndim)
    keep = [k for k in range(t.ndim) if k not in axes]
    fn0 = t._fn
    shape = t.shape_
    if keepdims:
        out_shape = tuple(1 if k in axes else d for k, d in enumerate(shape))
    else:
        out_shape = tuple(shape[k] for k in keep)

    def fn(*idx):
        full = [None] * len(shape)
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for p, k in enumerate(keep):
                full[k] = idx[p]

        def rec(axs, full):
            if not axs:
                v = fn0(*full)
                return v if z3.is_expr(v) else to_z3(v)
            k = axs[0]

            def inner(j):
                f2 = list(full)
                f2[k] = j
                return rec(axs[1:], f2)
            return red(dim_expr(shape[k]), inner)
        return rec(axes, full)
    return T(out_shape, memo(fn), None, t.np_like)


def reduce_sum(t, axis=None, keepdims=False):
    t = as_t(t)
    if t.kind() == 'i' or t.kind() == 'b':
        def red(n, f):
            return sum_e(n, f)
        r = _reduce(t, axis, keepdims, red)
        return r
    return _reduce(t, axis, keepdims, sum_e)


def count(t, axes):
    n = 1
    for a in axes:
        n = n * t.shape_[a] if isinstance(n, int) and n != 1 or isinstance(n, S) else t.shape_[a]
    return n


def reduce_mean(t, axis=None, keepdims=False):
    t = as_t(t)
    axes = norm_axis(axis, t.ndim)
    return reduce_sum(t, axis, keepdims) / count(t, axes)


def reduce_ext(t, axis, keepdims, name):
    return _reduce(t, axis, keepdims, lambda n, f: ext_e(name, n, f))


def reduce_bool(t, axis, keepdims, which):
    if which == 'all':
        return _reduce(t, axis, keepdims, lambda n, f: forall_e(n, f))
    return _reduce(t, axis, keepdims, lambda n, f: exists_e(n, f))


def cumsum(t, axis=None, exclusive=False):
    t = as_t(t)
    if axis is None:
        if t.ndim != 1:
            t = reshape(t, [-1])
        axis = 0
    a = norm_axis(axis, t.ndim)[0]
    fn0 = t._fn
    d = t.shape_[a]

    def fn(*idx):
        k = idx[a]
        upper = k if exclusive else iadd(k, 1)

        def f(j):
            f2 = list(idx)
            f2[a] = j
            return fn0(*f2)
        if isinstance(d, int) and d <= EXPAND and not isinstance(k, int):
            r = None
            for j in range(d - 1, -1, -1):
                v = sum_e(j if exclusive else j + 1, f)
                r = v if r is None else e_if(iz(k) == j, v, r)
            return r
        return sum_e(upper, f)
    return T(t.shape_, memo(fn), None, t.np_like)


def size_of(shape):
    n = 1
    for d in shape:
        n = d if isinstance(n, int) and n == 1 else n * d
    return n


def reshape(t, shape):
    t = as_t(t)
    if isinstance(shape, T):
        shape = [shape[i] for i in range(shape.shape_[0])]
    if isinstance(shape, (int, S, np.integer)):
        shape = [shape]
    shape = [dim(d) if not (isinstance(d, int) and d == -1) else -1 for d in shape]
    old = list(t.shape_)
    if -1 in shape:
        rest_old, rest_new = list(old), [d for d in shape if d != -1 or isinstance(d, S)]
        rest_new = [d for d in shape if isinstance(d, S) or d != -1]
        # cancel equal symbolic dims
        for d in [d for d in rest_new if isinstance(d, S)]:
            for o in rest_old:
                if isinstance(o, S) and dim_same(d, o):
                    rest_old.remove(o)
                    rest_new.remove(d)
                    break
        co = 1
        so = []
        for o in rest_old:
            if isinstance(o, int):
                co *= o
            else:
                so.append(o)
        cn = 1
        sn = []
        for o in rest_new:
            if isinstance(o, int):
                cn *= o
            else:
                sn.append(o)
        if sn:
            raise Unsupported('reshape with unresolved dimension')
        if co % cn == 0 if cn else False:
            v = co // cn
            for s in so:
                v = s * v if v != 1 else s
        elif not so:
            raise ShapeError('cannot reshape %s into %s' % (old, shape))
        else:
            q = size_of(so) * co
            # s*co/cn: require divisibility
            if ctx().known(to_z3(q % cn) == 0):
                v = q // cn
            else:
                raise ShapeError('cannot reshape %s into %s' % (old, shape))
        shape = [v if (isinstance(d, int) and d == -1) else d for d in shape]
    new = [dim(d) for d in shape]
    # check total sizes
    o_sym, n_sym = [d for d in old if not isinstance(d, int)], [d for d in new if not isinstance(d, int)]
    if all(isinstance(d, int) for d in old + new):
        if size_of(old) != size_of(new):
            raise ShapeError('cannot reshape array of shape %s into %s' % (old, new))
    else:
        so, sn = to_z3(size_of(old)), to_z3(size_of(new))
        if not ctx().known(so == sn):
            if z3.simplify(so - sn).eq(z3.IntVal(0)):
                pass
            else:
                raise ShapeError('cannot reshape array of shape %s into %s' % (old, new))
    # squeeze/unsqueeze
    oi = [k for k, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
    ni = [k for k, d in enumerate(new) if not (isinstance(d, int) and d == 1)]
    fn0 = t._fn
    if len(oi) == len(ni) and all(dim_same(old[a], new[b]) for a, b in zip(oi, ni)):
        def mk(src):
            def fn(*idx):
                full = [0] * len(old)
                for a, b in zip(oi, ni):
                    full[a] = idx[b]
                return src(*full)
            return fn
        return view(t, new, mk)
    # general: through the flat index (row major)
    def fn(*idx):
        flat = 0
        for d, i in zip(new, idx):
            flat = iadd(imul(flat, dim_expr(d)), i)
        full = [0] * len(old)
        rem = flat
        for k in range(len(old) - 1, -1, -1):
            d = dim_expr(old[k])
            if k == 0:
                full[k] = rem
            elif isinstance(rem, int) and isinstance(d, int):
                full[k] = rem % d
                rem = rem // d
            elif isinstance(d, int):
                if d == 1:
                    full[k] = 0
                else:
                    full[k] = z3.simplify(iz(rem) % d)
                    rem = z3.simplify(iz(rem) / d)
            else:
                raise Unsupported('reshape splitting a symbolic dimension')
        full = [ix(x) for x in full]
        return fn0(*full)
    return T(new, memo(fn), t.dtype_, t.np_like)


def view(t, shape, mk, key=None):
    """a numpy view reads through the current contents of its base; TensorFlow
    tensors are values"""
    if not t.np_like:
        return T(shape, mk(t._fn), t.dtype_, False)
    r = T(shape, None, t.dtype_, True, base=t)
    r._vw = mk
    r._vk = key
    return r


def fz(x):
    """operand as a value: later in-place changes of x do not affect it"""
    t = as_t(x)
    return t.frozen() if t.np_like else t


def write_view(v, val):
    """assign val to all of the view v"""
    if v._vk is None:
        raise Unsupported('assignment through an array view')
    if callable(v._vk):
        inv, b = v._vk, fz(val)
        setitem(v.base, Ellipsis, T(v.base.shape_, lambda *i: b.at(*inv(i)), b.dtype_, True))
        return
    setitem(v.base, v._vk, val)


def transpose(t, perm=None):
    t = as_t(t)
    n = t.ndim
    if perm is None:
        perm = list(range(n))[::-1]
    perm = [int(p) % n for p in perm]

    def mk(src):
        def fn(*idx):
            full = [None] * n
            for new, oldk in enumerate(perm):
                full[oldk] = idx[new]
            return src(*full)
        return fn
    return view(t, tuple(t.shape_[p] for p in perm), mk)


def stack(ts, axis=0, np_like=True):
    ts = [as_t(x) for x in ts]
    if not ts:
        raise ValueError('need at least one array to stack')
    r0 = ts[0].ndim
    for x in ts:
        if x.ndim != r0:
            raise ShapeError('all input arrays must have the same shape')
    shape = list(ts[0].shape_)
    for x in ts[1:]:
        for k, d in enumerate(x.shape_):
            if dim_same(shape[k], d) is not True:
                raise ShapeError('all input arrays must have the same shape')
    n = r0 + 1
    a = norm_axis(axis, n)[0]
    np_like = all(x.np_like for x in ts)
    fns = [x._fn for x in ts]
    new = shape[:a] + [len(ts)] + shape[a:]
    kinds = {x.kind() for x in ts}
    real = len(kinds) > 1

    def fn(*idx):
        k = idx[a]
        rest = idx[:a] + idx[a + 1:]
        if isinstance(k, int):
            v = ts_val(fns[k], rest)
            return as_real(v) if real else v
        r = None
        for j in range(len(fns) - 1, -1, -1):
            v = ts_val(fns[j], rest)
            if real:
                v = as_real(v)
            r = v if r is None else e_if(iz(k) == j, v, r)
        return r
    return T(new, memo(fn), ts[0].dtype_ if not real else None, np_like)


def ts_val(f, idx):
    v = f(*idx)
    return v if z3.is_expr(v) else to_z3(v)


def concat(ts, axis=0):
    if hasattr(ts, 'vc_seq') and not isinstance(ts, T):
        raise Unsupported('concat of a symbolic sequence')
    ts = [as_t(x) for x in ts]
    if not ts:
        raise ValueError('need at least one array to concatenate')
    n = ts[0].ndim
    if n == 0:
        raise ShapeError('zero-dimensional arrays cannot be concatenated')
    a = norm_axis(axis, n)[0]
    shape = list(ts[0].shape_)
    for x in ts[1:]:
        if x.ndim != n:
            raise ShapeError('all input arrays must have the same rank')
        for k, d in enumerate(x.shape_):
            if k != a and dim_same(shape[k], d) is not True:
                raise ShapeError('concat dimension mismatch')
    if all(isinstance(x.shape_[a], int) and x.shape_[a] == 0 for x in ts):
        x = next((x for x in ts if x.kind() == 'f'), ts[0])
        return T(shape, x._fn, x.dtype_, any(x.np_like for x in ts))
    starts = []
    tot = 0
    for x in ts:
        starts.append(dim_expr(tot) if not isinstance(tot, int) else tot)
        tot = x.shape_[a] + tot if not (isinstance(tot, int) and tot == 0) else x.shape_[a]
    shape[a] = tot
    fns = [x._fn for x in ts]
    kinds = {x.kind() for x in ts}
    real = len(kinds) > 1
    sizes = [x.shape_[a] for x in ts]

    def fn(*idx):
        k = idx[a]

        def val(j):
            ii = list(idx)
            ii[a] = isub(k, starts[j])
            v = ts_val(fns[j], ii)
            return as_real(v) if real else v
        if isinstance(k, int) and all(isinstance(s, int) for s in starts):
            j = max(i for i, s in enumerate(starts) if s <= k and
                    not (isinstance(sizes[i], int) and sizes[i] == 0)) \
                if k >= 0 else 0
            return val(j)
        r = None
        for j in range(len(fns) - 1, -1, -1):
            if isinstance(sizes[j], int) and sizes[j] == 0:
                continue
            if r is None:
                r = val(j)
                continue
            # select constituent j when k < start of the next
            end = iadd(starts[j], dim_expr(sizes[j]))
            cond = ilt(k, end)
            if isinstance(sizes[j], int) and sizes[j] == 1 and j == 0:
                cond = ieq(k, 0)
                ii = list(idx)
                ii[a] = 0
                v = ts_val(fns[j], ii)
                v = as_real(v) if real else v
            else:
                v = val(j)
            r = e_if(bz(cond), v, r)
        return r
    return T(shape, memo(fn), ts[0].dtype_, all(x.np_like for x in ts))


def expand_dims(t, axis):
    t = as_t(t)
    n = t.ndim + 1
    a = norm_axis(axis, n)[0]
    new = t.shape_[:a] + (1,) + t.shape_[a:]
    return view(t, new, lambda src: lambda *i: src(*(i[:a] + i[a + 1:])), key=lambda i: i[:a] + (0,) + i[a:])


def squeeze(t, axis=None):
    t = as_t(t)
    if axis is None:
        axes = [k for k, d in enumerate(t.shape_) if isinstance(d, int) and d == 1]
    else:
        axes = norm_axis(axis, t.ndim)
        for a in axes:
            if dim_same(t.shape_[a], 1) is not True:
                raise ShapeError('cannot squeeze dimension of size != 1')
    keep = [k for k in range(t.ndim) if k not in axes]

    def mk(src):
        def fn(*idx):
            full = [0] * t.ndim
            for p, k in enumerate(keep):
                full[k] = idx[p]
            return src(*full)
        return fn
    return view(t, tuple(t.shape_[k] for k in keep), mk)


def tile(t, reps):
    t = fz(t)
    if isinstance(reps, T):
        reps = [reps[i] for i in range(reps.shape_[0])]
    if isinstance(reps, (int, S)):
        reps = [reps]
    reps = list(reps)
    n = max(len(reps), t.ndim)
    reps = [1] * (n - len(reps)) + [dim(r) for r in reps]
    sh = (1,) * (n - t.ndim) + t.shape_
    new = []
    for d, r in zip(sh, reps):
        if isinstance(d, int) and d == 1:
            new.append(r)
        elif isinstance(r, int) and r == 1:
            new.append(d)
        else:
            new.append(d * r)

    def fn(*idx):
        full = []
        for k, i in enumerate(idx):
            d = sh[k]
            if k < n - t.ndim:
                continue
            if isinstance(d, int) and d == 1:
                full.append(0)
            elif isinstance(reps[k], int) and reps[k] == 1:
                full.append(i)
            elif isinstance(d, int):
                full.append(i % d if isinstance(i, int) else iz(i) % d)
            else:
                raise Unsupported('tile of a symbolic dimension')
        return t._fn(*full)
    return T(new, memo(fn), t.dtype_, t.np_like)


def broadcast_to(t, shape):
    t = fz(t)
    shape = [dim(d) for d in shape]
    s = broadcast_shapes(t.shape_, tuple(shape))
    z = T(tuple(shape), lambda *i: z3.IntVal(0))
    off = len(shape) - t.ndim

    def fn(*idx):
        return t._fn(*[0 if isinstance(d, int) and d == 1 else idx[k + off]
                       for k, d in enumerate(t.shape_)])
    return T(shape, fn, t.dtype_, t.np_like)


def matmul(a, b):
    a, b = fz(a), fz(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        k = bdim(a.shape_[1], b.shape_[0])
        return T((a.shape_[0],), memo(lambda i: sum_e(dim_expr(k), lambda j: sym.e_mul(a.at(i, j), b.at(j)))), None, a.np_like and b.np_like)
    if a.ndim == 1 and b.ndim == 2:
        k = bdim(a.shape_[0], b.shape_[0])
        return T((b.shape_[1],), memo(lambda i: sum_e(dim_expr(k), lambda j: sym.e_mul(a.at(j), b.at(j, i)))), None, a.np_like and b.np_like)
    if dim_same(a.shape_[-1], b.shape_[-2]) is not True:
        raise ShapeError('matmul: inner dimensions differ')
    k = a.shape_[-1]
    lead = broadcast_shapes(a.shape_[:-2], b.shape_[:-2])
    nl = len(lead)

    def fn(*idx):
        l, i, j = idx[:nl], idx[-2], idx[-1]
        def lead_idx(t):
            off = nl - (t.ndim - 2)
            return [0 if isinstance(d, int) and d == 1 else l[q + off]
                    for q, d in enumerate(t.shape_[:-2])]
        return sum_e(dim_expr(k), lambda q: sym.e_mul(
            a.at(*lead_idx(a), i, q), b.at(*lead_idx(b), q, j)))
    return T(lead + (a.shape_[-2], b.shape_[-1]), memo(fn), None, a.np_like and b.np_like)


# --- indexing -----------------------------------------------------------------------
def _slice_params(s, d):
    """start, stop, step for a slice on dimension d (index terms)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, S):
        raise Unsupported('symbolic slice step')
    de = dim_expr(d)
    if step not in (1, -1) and not isinstance(d, int):
        raise Unsupported('strided slice of symbolic dimension')

    def norm(v, default):
        if v is None:
            return default
        v = ix(v) if not isinstance(v, T) else ix(v.item_scalar())
        if isinstance(v, int) and isinstance(de, int):
            if v < 0:
                v = max(v + de, 0)
            return min(v, de)
        if isinstance(v, int):
            if v < 0:
                r = iz(de) + v
                if ctx().known(r >= 0):
                    return z3.simplify(r)
                return z3.simplify(z3.If(r >= 0, r, z3.IntVal(0)))
            if ctx().known(iz(de) >= v):
                return v
            return z3.simplify(z3.If(iz(de) < v, iz(de), z3.IntVal(v)))
        # symbolic bound
        if ctx().known(z3.And(v >= 0, v <= iz(de))):
            return v
        r = z3.If(v < 0, v + iz(de), v)
        return z3.simplify(z3.If(r < 0, z3.IntVal(0), z3.If(r > iz(de), iz(de), r)))
    if step == -1:
        if s.start is not None or s.stop is not None:
            if isinstance(d, int):
                return slice(s.start, s.stop, -1).indices(d)
            raise Unsupported('reversed slice with bounds')
        return isub(de, 1), None, -1
    if step != 1:
        return slice(s.start, s.stop, step).indices(d)
    return norm(s.start, 0), norm(s.stop, de), 1


def _slice_dim(s, d):
    a, b, st = _slice_params(s, d)
    if st == -1 and b is None:
        return d, (lambda i: isub(a, i))
    if isinstance(a, int) and isinstance(b, int):
        n = len(range(a, b, st))
        return n, (lambda i: iadd(a, imul(i, st)))
    n = z3.simplify(iz(b) - iz(a))
    if not ctx().known(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    n = z3.simplify(n)
    return dim(S(n)), (lambda i: iadd(a, i))


def _norm_index(i, d):
    """index (possibly negative) into dimension d"""
    i = ix(i)
    if isinstance(i, int):
        if i < 0:
            if isinstance(d, int):
                if i + d < 0:
                    raise IndexError('index out of bounds')
                return i + d
            return z3.simplify(d.e + i)
        if isinstance(d, int) and i >= d:
            raise IndexError('index %d is out of bounds for axis of size %d' % (i, d))
        return i
    return i


def parse_key(t, k):
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    # count consumed dims
    consumed = 0
    for q in k:
        if q is None or q is Ellipsis:
            continue
        if isinstance(q, T) and q.kind() == 'b':
            consumed += q.ndim
        elif isinstance(q, np.ndarray) and q.dtype == bool:
            consumed += q.ndim
        else:
            consumed += 1
    n_e = sum(1 for q in k if q is Ellipsis)
    if n_e == 0:
        k.append(Ellipsis)
    if consumed > t.ndim:
        raise IndexError('too many indices for array')
    out = []
    for q in k:
        if q is Ellipsis:
            out += [slice(None)] * (t.ndim - consumed)
        else:
            out.append(q)
    return out


def _as_adv(q):
    """advanced index -> T, else None"""
    if isinstance(q, list):
        return as_t(np.array(q)) if not is_symbolic(q) else as_t(q)
    if isinstance(q, np.ndarray):
        return as_t(q)
    if isinstance(q, T) and q.ndim > 0:
        return q
    return None


def getitem(t, k):
    items = parse_key(t, k)
    adv = [_as_adv(q) for q in items]
    if any(a is not None for a in adv):
        return adv_getitem(t, items, adv)
    maps = []     # per source dim: function of output idx
    new_shape = []
    src = 0
    plan = []
    for q in items:
        if q is None:
            plan.append(('new',))
            new_shape.append(1)
            continue
        d = t.shape_[src]
        if isinstance(q, slice):
            n, f = _slice_dim(q, d)
            plan.append(('sl', f))
            new_shape.append(n)
        else:
            if isinstance(q, T):
                q = q.item_scalar()
            if isinstance(q, (bool, np.bool_)):
                raise Unsupported('bool index')
            i = _norm_index(q, d)
            if not isinstance(i, int) or not isinstance(d, int):
                check_bounds(i, d)
            plan.append(('ix', i))
        src += 1

    def mk(src):
        def fn(*idx):
            full = []
            p = 0
            for pl in plan:
                if pl[0] == 'new':
                    p += 1
                elif pl[0] == 'sl':
                    full.append(pl[1](idx[p]))
                    p += 1
                else:
                    full.append(pl[1])
            return src(*full)
        return fn
    if not new_shape and t.np_like:
        v = mk(t._fn)()
        v = v if z3.is_expr(v) else to_z3(v)
        w = wrap(v)
        if isinstance(w, S):
            w.dtype = t.dtype_
        return w
    return view(t, new_shape, mk, k)


def check_bounds(i, d):
    """fork into the in-range path and an IndexError path"""
    e = z3.And(iz(i) >= 0, iz(i) < iz(dim_expr(d)))
    if ctx().nosplit:
        return
    if not ctx().branch(e):
        raise IndexError('index out of bounds')


def adv_getitem(t, items, adv):
    # boolean mask alone on the leading dims
    pos = [p for p, a in enumerate(adv) if a is not None]
    if any(adv[p].kind() == 'b' for p in pos):
        if len(pos) != 1:
            raise Unsupported('mixed boolean indexing')
        p = pos[0]
        if any(not isinstance(q, slice) or q != slice(None)
               for i, q in enumerate(items) if i != p):
            # apply the mask on axis p first, then the remaining basic key
            mask = adv[p]
            src_axis = sum(0 if q is None else 1 for q in items[:p])
            sel = boolean_mask(t, mask, src_axis)
            rest = list(items)
            rest[p] = slice(None)
            return getitem(sel, tuple(rest))
        src_axis = p
        return boolean_mask(t, adv[p], src_axis)
    # integer arrays
    if any(q is None for q in items):
        raise Unsupported('newaxis with advanced indexing')
    bshape = broadcast_shapes(*[adv[p].shape_ for p in pos])
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    scalars = [i for i, q in enumerate(items) if adv[i] is None and not isinstance(q, slice)]
    if scalars:
        # scalars take part in the advanced index
        for i in scalars:
            adv[i] = as_t(items[i])
        pos = sorted(pos + scalars)
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
    at = pos[0] if contiguous else 0
    sl = {}
    new_shape = []
    order = []
    for i, q in enumerate(items):
        if i == at or (not contiguous and i == 0 and at == 0 and not order):
            pass
    out = []
    slices = [(i, q) for i, q in enumerate(items) if i not in pos]
    lead = [(i, q) for i, q in slices if i < at] if contiguous else []
    trail = [(i, q) for i, q in slices if i >= at] if contiguous else slices
    fl = []
    for i, q in lead:
        n, f = _slice_dim(q, t.shape_[i])
        new_shape.append(n)
        fl.append((i, f))
    nb = len(bshape)
    new_shape += list(bshape)
    ft = []
    for i, q in trail:
        n, f = _slice_dim(q, t.shape_[i])
        new_shape.append(n)
        ft.append((i, f))
    advs = [(p, fz(adv[p])) for p in pos]
    t = fz(t)

    def fn(*idx):
        full = [None] * t.ndim
        c = 0
        for i, f in fl:
            full[i] = f(idx[c])
            c += 1
        b = idx[c:c + nb]
        c += nb
        for i, f in ft:
            full[i] = f(idx[c])
            c += 1
        for p, a in advs:
            off = nb - a.ndim
            ii = [0 if isinstance(d, int) and d == 1 else b[q + off]
                  for q, d in enumerate(a.shape_)]
            v = a.at(*ii)
            if sym.const_num(v) is not None and v.sort() == IS:
                v = v.as_long()
                if v < 0:
                    v = v + t.shape_[p] if isinstance(t.shape_[p], int) else z3.simplify(t.shape_[p].e + v)
            elif v.sort() != IS:
                raise IndexError('arrays used as indices must be of integer type')
            full[p] = v
        return t._fn(*full)
    return T(new_shape, memo(fn), t.dtype_, t.np_like)


# --- data dependent selection ------------------------------------------------
class Selection:
    """the ordered indices i < n with mask(i)"""
    def __init__(self, n, maskfn, uid):
        self.n, self.maskfn, self.uid = n, maskfn, uid


def select_count(mask_t):
    sel = selection(mask_t)
    return sel[0]


def selection(mask_t):
    """(count S, index function) for a 1-d boolean tensor.  Two masks that are
    provably equal pointwise give the same selection."""
    c = ctx()
    if not hasattr(c, 'selections'):
        c.selections = []
    n = mask_t.shape_[0]
    nz = iz(dim_expr(n))
    i = z3.Int('?s')
    m = as_bool(mask_t.at(i))
    for (n2, m2, cnt, fun) in c.selections:
        if n2.eq(nz):
            if m2.eq(m) or equal_masks(c, m, m2, i, nz):
                return cnt, fun
    uid = len(c.selections)
    cnt = S(c.fresh('cnt', IS))
    fun = z3.Function(c.fresh_name('sel'), IS, IS)
    c.assume(cnt >= 0)
    c.assume(S(cnt.e <= nz))
    # facts: in range, mask holds, strictly increasing, onto
    k, l = z3.Ints('?k ?l')
    rng = z3.And(k >= 0, k < cnt.e)
    c.assume_fact(z3.ForAll([k], z3.Implies(rng, z3.And(
        fun(k) >= 0, fun(k) < nz, z3.substitute(m, (i, fun(k))))), patterns=[fun(k)]))
    c.assume_fact(z3.ForAll([k, l], z3.Implies(
        z3.And(k >= 0, k < l, l < cnt.e), fun(k) < fun(l)),
        patterns=[z3.MultiPattern(fun(k), fun(l))]))
    c.selections.append((nz, m, cnt, fun))
    return cnt, fun


def equal_masks(c, m, m2, i, nz):
    from . import prover
    return prover.valid(c, z3.Implies(z3.And(i >= 0, i < nz), m == m2), quick=True)


def boolean_mask(t, mask, axis=0):
    t, mask = fz(t), fz(mask)
    if mask.ndim > 1:
        # flatten the masked dims
        lead = list(t.shape_[:axis])
        dims = list(t.shape_[axis:axis + mask.ndim])
        for a, b in zip(dims, mask.shape_):
            if dim_same(a, b) is not True:
                raise ShapeError('boolean index did not match')
        rest = list(t.shape_[axis + mask.ndim:])
        t = reshape(t, lead + [size_of(dims)] + rest)
        mask = reshape(mask, [-1])
    else:
        if dim_same(t.shape_[axis], mask.shape_[0]) is not True:
            raise ShapeError('boolean index did not match indexed array')
    n = mask.shape_[0]
    if isinstance(n, int):
        vals = [z3.simplify(as_bool(mask.at(i))) for i in range(n)]
        if all(z3.is_true(v) or z3.is_false(v) for v in vals):
            idx = [i for i, v in enumerate(vals) if z3.is_true(v)]
            return take_const(t, idx, axis)
        if n <= 12:
            idx = [i for i, v in enumerate(vals) if ctx().branch(v)]
            return take_const(t, idx, axis)
    cnt, fun = selection(mask)

    def fn(*idx):
        ii = list(idx)
        ii[axis] = fun(iz(idx[axis]))
        return t._fn(*ii)
    sh = list(t.shape_)
    sh[axis] = cnt
    return T(sh, fn, t.dtype_, t.np_like)


def take_const(t, idx, axis):
    t = fz(t)
    sh = list(t.shape_)
    sh[axis] = len(idx)

    def fn(*ii):
        ii = list(ii)
        k = ii[axis]
        if isinstance(k, int):
            ii[axis] = idx[k]
            return t._fn(*ii)
        r = None
        for j in range(len(idx) - 1, -1, -1):
            ii[axis] = idx[j]
            v = ts_val(t._fn, ii)
            r = v if r is None else e_if(iz(k) == j, v, r)
        return r if r is not None else {BS: z3.BoolVal(False), IS: z3.IntVal(0)}.get(t.sort(), z3.RealVal(0))
    return T(sh, fn, t.dtype_, t.np_like)


# --- assignment ----------------------------------------------------------------------
def setitem(t, k, v):
    if not t.np_like:
        raise TypeError("'Tensor' object does not support item assignment")
    if t._vw is not None:
        tmp = t.frozen()
        setitem(tmp, k, v)
        write_view(t, tmp)
        return
    items = parse_key(t, k)
    adv = [_as_adv(q) for q in items]
    old = t._fn
    kind = t.kind()
    vt = fz(v) if v is not None else None
    if v is None:
        vt = T((), lambda: sym.NAN)

    def conv(e):
        if kind == 'f':
            return as_real(e)
        if kind == 'i':
            return sym.e_toint(e)
        return as_bool(e)
    if any(a is not None for a in adv):
        pos = [p for p, a in enumerate(adv) if a is not None]
        if len(pos) == 1 and adv[pos[0]].kind() == 'b':
            p = pos[0]
            mask = fz(adv[p])
            mn = mask.ndim
            for a, b in zip(t.shape_[p:p + mn], mask.shape_):
                if dim_same(a, b) is not True:
                    raise ShapeError('boolean index did not match')
            others = [(i, q) for i, q in enumerate(items) if i != p]
            if any(not (isinstance(q, slice) and q == slice(None)) for i, q in others):
                raise Unsupported('masked assignment with further keys')
            if vt.ndim != 0:
                src = getattr(vt, '_fn', None)
                # x[mask] = y[mask]-shaped values: only when they are a selection
                # of the same mask
                if isinstance(t.shape_[p], int) and t.shape_[p] <= EXPAND and mn == 1:
                    flags = [ctx().branch(as_bool(mask.at(i))) for i in range(t.shape_[p])]
                    idx = [i for i, f in enumerate(flags) if f]
                    _set_rows(t, p, idx, vt, old, conv)
                    return
                cnt, fun = selection(reshape(mask, [-1]) if mn > 1 else mask)
                if mn > 1:
                    raise Unsupported('masked assignment of an array')
                inv = inverse_selection(mask, cnt, fun)
                vs = vt
                off = t.ndim - vs.ndim

                def fn(*idx):
                    ii = []
                    for q in range(vs.ndim):
                        d = vs.shape_[q]
                        if isinstance(d, int) and d == 1:
                            ii.append(0)
                        elif q + off == p:
                            ii.append(inv(iz(idx[p])))
                        else:
                            ii.append(idx[q + off])
                    return e_if(as_bool(mask.at(idx[p])), conv(vs.at(*ii)), old(*idx))
                t._fn = memo(fn)
                return

            def fn(*idx):
                m = as_bool(mask.at(*idx[p:p + mn]))
                return e_if(m, conv(vt.at()), ts_val(old, idx))
            t._fn = memo(fn)
            return
        # integer-array assignment with a constant index list
        if len(pos) == 1:
            p = pos[0]
            a = adv[p]
            if a.ndim == 1 and isinstance(a.shape_[0], int):
                idx = []
                for i in range(a.shape_[0]):
                    v_ = a.at(i)
                    idx.append(ctx().concretize(v_) if sym.const_num(v_) is None else v_.as_long())
                if all(isinstance(q, slice) and q == slice(None)
                       for i, q in enumerate(items) if i != p):
                    _set_rows(t, p, idx, vt, old, conv)
                    return
        raise Unsupported('advanced assignment')
    # basic
    conds = []
    shape = []
    plan = []
    src = 0
    for q in items:
        if q is None:
            raise Unsupported('newaxis in assignment')
        d = t.shape_[src]
        if isinstance(q, slice):
            a, b, st = _slice_params(q, d)
            if st not in (1,) and not (isinstance(a, int) and isinstance(b, int)):
                raise Unsupported('strided assignment')
            n, f = _slice_dim(q, d)
            plan.append(('sl', a, b, st, n))
            shape.append(n)
        else:
            if isinstance(q, T):
                q = q.item_scalar()
            i = _norm_index(q, d)
            if not isinstance(i, int) or not isinstance(d, int):
                check_bounds(i, d)
            plan.append(('ix', i))
        src += 1
    # value must broadcast to shape
    r = broadcast_shapes(tuple(shape), vt.shape_) if vt.ndim else tuple(shape)
    if len(r) != len(shape):
        raise ShapeError('could not broadcast input array')
    for a, b in zip(r, shape):
        if dim_same(a, b) is not True:
            raise ShapeError('could not broadcast input array from shape')

    def fn(*idx):
        c = []
        vi = []
        for p, pl in enumerate(plan):
            i = idx[p]
            if pl[0] == 'ix':
                e = ieq(i, pl[1])
                if isinstance(e, bool):
                    if not e:
                        return old(*idx)
                else:
                    c.append(e)
            else:
                _, a, b, st, n = pl
                if isinstance(a, int) and isinstance(b, int) and isinstance(i, int):
                    if i not in range(a, b, st):
                        return old(*idx)
                    vi.append((i - a) // st)
                    continue
                if not (isinstance(a, int) and a == 0):
                    c.append(bz(iz(i) >= iz(a)))
                full = b is dim_expr(t.shape_[p]) or (
                    z3.is_expr(b) and z3.is_expr(dim_expr(t.shape_[p])) and b.eq(dim_expr(t.shape_[p]))) \
                    or (isinstance(b, int) and isinstance(t.shape_[p], int) and b == t.shape_[p])
                if not full:
                    c.append(bz(ilt(i, b)))
                if st == 1:
                    vi.append(isub(i, a))
                else:
                    c.append((iz(i) - a) % st == 0)
                    vi.append((iz(i) - a) / st)
        off = len(vi) - vt.ndim
        ii = [0 if isinstance(d, int) and d == 1 else vi[q + off]
              for q, d in enumerate(vt.shape_)]
        val = conv(vt.at(*ii))
        if not c:
            return val
        return e_if(z3.And(*c) if len(c) > 1 else c[0], val, ts_val(old, idx))
    t._fn = memo(fn)


def inverse_selection(mask, cnt, fun):
    c = ctx()
    key = fun.name()
    if not hasattr(c, 'invsel'):
        c.invsel = {}
    if key in c.invsel:
        return c.invsel[key]
    inv = z3.Function('rank_' + key, IS, IS)
    n = iz(dim_expr(mask.shape_[0]))
    i = z3.Int('?i')
    c.assume_fact(z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < n, as_bool(mask.at(i))),
        z3.And(inv(i) >= 0, inv(i) < cnt.e, fun(inv(i)) == i)), patterns=[inv(i)]))
    c.invsel[key] = inv
    return inv


def _set_rows(t, p, rows, vt, old, conv):
    def fn(*idx):
        r = None
        i = idx[p]
        shape_rank = t.ndim
        off = shape_rank - vt.ndim

        def val(j):
            ii = []
            for q, d in enumerate(vt.shape_):
                if isinstance(d, int) and d == 1:
                    ii.append(0)
                elif q + off == p:
                    ii.append(j)
                else:
                    ii.append(idx[q + off])
            return conv(vt.at(*ii))
        r = ts_val(old, idx)
        for j, row in enumerate(rows):
            e = ieq(i, row)
            if isinstance(e, bool):
                if e:
                    r = val(j)
            else:
                r = e_if(e, val(j), r)
        return r
    t._fn = memo(fn)


# --- fresh inputs ----------------------------------------------------------------
def fresh_tensor(name, shape, sort=RS, dtype=None, np_like=True):
    c = ctx()
    nm = c.fresh_name(name)
    f = z3.Function(nm, *([IS] * len(shape)), sort) if shape else None

    def fn(*idx):
        if f is None:
            return z3.Const(nm, sort)
        return f(*[iz(i) for i in idx])
    return T(shape, fn, dtype or {RS: 'float64', IS: 'int64', BS: 'bool'}.get(sort), np_like, name=nm)
