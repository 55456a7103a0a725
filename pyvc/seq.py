"""Symbolic sequences, the loop rule, and modelled builtins."""
import builtins
import copy
import numpy as np
import z3
from . import sym
from .sym import S, Unsupported, ctx, to_z3, IS, RS, BS, as_bool, as_real
from .tensor import T, as_t, iz, ix, is_symbolic, dim_expr, dim, dim_same, sum_e, forall_e, new_bv


class SSeq:
    """A sequence of symbolic length n with element function at(k)."""

    def __init__(self, n, at, name=None):
        self.n = dim(n) if not isinstance(n, int) else n
        self._at = at
        self.name = name

    def at(self, k):
        return self._at(k)

    def vc_seq(self):
        return self

    def vc_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len() of a symbolic sequence')

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(k) for k in range(self.n)])
        raise Unsupported('native iteration over a symbolic sequence')

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return SSeq(self.n, self._at)
            if k.step in (None, 1) and isinstance(self.n, int):
                a, b, _ = k.indices(self.n)
                return SSeq(max(b - a, 0), lambda i: self._at(i + a))
            raise Unsupported('slice of a symbolic sequence')
        k = ix(k)
        if isinstance(k, int) and k < 0:
            k = z3.simplify(iz(dim_expr(self.n)) + k)
            k = ix(k)
        from .tensor import check_bounds
        if not (isinstance(k, int) and isinstance(self.n, int) and 0 <= k < self.n):
            check_bounds(k, self.n)
        return self.at(k)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return vc_eq(self, o)

    def __ne__(self, o):
        return not vc_eq(self, o)

    def __add__(self, o):
        return seq_concat(self, o)

    def __radd__(self, o):
        return seq_concat(o, self)

    def index(self, x):
        raise Unsupported('index() of symbolic sequence')

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<SSeq %s>' % (self.n,)


def vc_eq(a, b):
    raise Unsupported('comparison of symbolic sequences')


def as_seq(x):
    if isinstance(x, SSeq):
        return x
    if hasattr(x, 'vc_seq'):
        return x.vc_seq()
    if isinstance(x, (list, tuple)):
        xs = list(x)

        def at(k):
            k = ix(k)
            if isinstance(k, int):
                return xs[k]
            return pick(k, xs)
        return SSeq(len(xs), at)
    raise Unsupported('sequence from %r' % type(x))


def pick(k, xs):
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = merge(iz(k) == j, xs[j], r)
    return r


def merge(c, a, b):
    """value-level if-then-else"""
    if a is b:
        return a
    if isinstance(a, (S, int, float, bool, np.generic, str)) and isinstance(b, (S, int, float, bool, np.generic, str)):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return sym.wrap(sym.e_if(c, to_z3(a), to_z3(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, T) or isinstance(b, T):
        ta, tb = as_t(a), as_t(b)
        from .tensor import ew
        return ew(lambda x, y: sym.e_if(c, x, y), ta, tb)
    if a is None and b is None:
        return None
    raise Unsupported('cannot merge %r and %r' % (type(a), type(b)))


def seq_concat(a, b):
    a, b = as_seq(a), as_seq(b)
    na, nb = a.n, b.n
    if isinstance(na, int) and isinstance(nb, int):
        return SSeq(na + nb, lambda k: a.at(k) if isinstance(k, int) and k < na else (
            b.at(k - na) if isinstance(k, int) else merge(iz(k) < na, a.at(k), b.at(iz(k) - na))))

    def at(k):
        k = ix(k)
        if isinstance(k, int) and isinstance(na, int):
            return a.at(k) if k < na else b.at(k - na)
        d = z3.simplify(iz(k) - iz(dim_expr(na)))
        return merge(iz(k) < iz(dim_expr(na)), a.at(k), b.at(ix(d)))
    if isinstance(na, int) and na == 0:
        return b
    return SSeq(na + nb, at)


# ------------------------------------------------------------------------------
# builtins
def is_symseq(x):
    """a sequence whose iteration needs the loop rule"""
    if isinstance(x, T):
        return bool(x.shape_) and not isinstance(x.shape_[0], int)
    if isinstance(x, SSeq):
        return not isinstance(x.n, int)
    if hasattr(x, 'vc_seq'):
        return not isinstance(x.vc_seq().n, int)
    return False


def vc_len(x):
    if hasattr(x, 'vc_len'):
        n = x.vc_len()
        if isinstance(n, S):
            return dim(n)
        return n
    return builtins.len(x)


class SRange(SSeq):
    def __init__(self, a, b, step=1):
        if step != 1:
            raise Unsupported('symbolic range with step')
        n = b - a
        if isinstance(n, S):
            if not ctx().known(n.e >= 0):
                n = S(z3.If(n.e >= 0, n.e, z3.IntVal(0)))
        else:
            n = max(n, 0)
        SSeq.__init__(self, n, lambda k: sym.wrap(z3.simplify(iz(ix(k)) + to_z3(a))) if not (isinstance(k, int) and isinstance(a, int)) else k + a)


class RangeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.range)


class vc_range(metaclass=RangeMeta):
    def __new__(cls, *args):
        args = [dim(a) if isinstance(a, (S, T)) else a for a in args]
        if any(isinstance(a, S) for a in args):
            if len(args) == 1:
                return SRange(0, args[0])
            return SRange(*args)
        return builtins.range(*args)


class LazyEnum(SSeq):
    pass


def vc_enumerate(it, start=0):
    if is_symseq(it):
        s = as_seq(it)
        return SSeq(s.n, lambda k: (k + start if isinstance(k, int) else sym.wrap(z3.simplify(iz(k) + start)), s.at(k)))
    return builtins.enumerate(it, start)


def vc_zip(*its):
    if any(is_symseq(i) for i in its):
        ss = [as_seq(i) for i in its]
        n = ss[0].n
        for s in ss[1:]:
            if dim_same(n, s.n):
                continue
            a, b = to_z3(n), to_z3(s.n)
            n = dim(S(z3.If(a <= b, a, b)))
        return SSeq(n, lambda k: tuple(s.at(k) for s in ss))
    return builtins.zip(*its)


def vc_reversed(x):
    if is_symseq(x):
        s = as_seq(x)
        return SSeq(s.n, lambda k: s.at(z3.simplify(iz(dim_expr(s.n)) - 1 - iz(ix(k)))))
    return builtins.reversed(x)


def vc_sum(x, start=0):
    if isinstance(x, T) and x.ndim == 1 and not isinstance(x.shape_[0], int):
        from .tensor import reduce_sum
        return reduce_sum(x).item_scalar() + start
    if is_symseq(x):
        s = as_seq(x)
        pure()
        try:
            e = sum_e(dim_expr(s.n), lambda k: sym.as_arith(to_z3(s.at(k))))
        finally:
            unpure()
        return S(e) + start
    return builtins.sum(list(x), start)


def pure():
    ctx().nosplit += 1


def unpure():
    ctx().nosplit -= 1


def vc_any(x):
    if is_symseq(x):
        s = as_seq(x)
        pure()
        try:
            e = forall_e(dim_expr(s.n), lambda k: z3.Not(truth(s.at(k))))
        finally:
            unpure()
        return S(z3.Not(e))
    for v in x:
        if v:
            return True
    return False


def vc_all(x):
    if is_symseq(x):
        s = as_seq(x)
        pure()
        try:
            e = forall_e(dim_expr(s.n), lambda k: truth(s.at(k)))
        finally:
            unpure()
        return S(e)
    for v in x:
        if not v:
            return False
    return True


def truth(v):
    if isinstance(v, S):
        return as_bool(v.e)
    if isinstance(v, T):
        return as_bool(to_z3(v.item_scalar()))
    return z3.BoolVal(bool(v))


def vc_min(*args, **kw):
    return _minmax(builtins.min, True, args, kw)


def vc_max(*args, **kw):
    return _minmax(builtins.max, False, args, kw)


def _minmax(f, is_min, args, kw):
    xs = args
    if len(args) == 1:
        x = args[0]
        if is_symseq(x):
            if isinstance(x, T) and x.ndim == 1:
                return (x.min() if is_min else x.max()).item_scalar()
            raise Unsupported('min/max of a symbolic sequence')
        xs = list(x)
    if any(isinstance(x, (S, T)) for x in xs) and not kw:
        r = xs[0]
        for x in xs[1:]:
            if isinstance(x, T):
                x = x.item_scalar()
            if isinstance(r, T):
                r = r.item_scalar()
            a, b = to_z3(r), to_z3(x)
            r = sym.wrap(sym.e_if(sym.e_lt(b, a) if is_min else sym.e_lt(a, b), b, a))
        return r
    return f(*args, **kw)


class TypeMeta(type):
    def __instancecheck__(cls, o):
        real = cls.vc_real
        if isinstance(o, S):
            k = cls.kinds
            s = o.e.sort()
            return (s == RS and 'f' in k) or (s == IS and 'i' in k) or (s == BS and 'b' in k) or (s == sym.ATOM and 's' in k)
        if cls.symtypes and isinstance(o, cls.symtypes):
            return True
        return isinstance(o, real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.vc_real) or (isinstance(o, TypeMeta) and issubclass(o.vc_real, cls.vc_real))

    def __eq__(cls, o):
        if isinstance(o, TypeMeta):
            return cls.vc_real is o.vc_real
        return cls.vc_real is o

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls.vc_real)

    def __getattr__(cls, k):
        return getattr(cls.vc_real, k)

    @property
    def __name__(cls):
        return cls.vc_real.__name__


def mktype(real_, kinds_, conv, symtypes_=()):
    class X(metaclass=TypeMeta):
        vc_real = real_
        kinds = kinds_
        symtypes = symtypes_

        def __new__(cls, *a, **k):
            return conv(*a, **k)
    return X


def _float(x=0.0):
    if isinstance(x, S):
        return S(as_real(x.e))
    if isinstance(x, T):
        return S(as_real(to_z3(x.item_scalar())))
    return builtins.float(x)


def _int(x=0, *a):
    if isinstance(x, T):
        x = x.item_scalar()
    if isinstance(x, S):
        return sym.wrap(sym.e_toint(x.e))
    return builtins.int(x, *a)


def _bool(x=False):
    if isinstance(x, T):
        x = x.item_scalar()
    if isinstance(x, S):
        return S(as_bool(x.e))
    if hasattr(x, 'vc_len'):
        n = vc_len(x)
        return n > 0
    return builtins.bool(x)


def _list(*a):
    if a and isinstance(a[0], (T,)) and isinstance(a[0].shape_[0], int):
        return [a[0][i] for i in builtins.range(a[0].shape_[0])]
    if a and is_symseq(a[0]):
        return as_seq(a[0])
    return builtins.list(*a)


def _tuple(*a):
    if a and is_symseq(a[0]):
        return as_seq(a[0])
    return builtins.tuple(*a)


def _str(*a):
    if a and isinstance(a[0], S) and a[0].e.sort() == sym.ATOM:
        return a[0]
    return builtins.str(*a)


def vc_isinstance(o, t):
    if isinstance(t, builtins.tuple):
        return builtins.any(vc_isinstance(o, x) for x in t)
    return builtins.isinstance(o, t)


def vc_type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, S):
            s = o.e.sort()
            return {RS: builtins.float, IS: builtins.int, BS: builtins.bool}.get(s, builtins.str)
        return builtins.type(o)
    return builtins.type(*a)


class TypeType(type):
    """`type` itself must stay usable as a metaclass / isinstance target"""


def vc_abs(x):
    return builtins.abs(x)


def vc_round(x, n=None):
    if isinstance(x, (S, T)):
        raise Unsupported('round of a symbolic value')
    return builtins.round(x) if n is None else builtins.round(x, n)


def vc_sorted(x, key=None, reverse=False):
    if is_symseq(x):
        raise Unsupported('sorted() of a symbolic sequence')
    return builtins.sorted(x, key=key, reverse=reverse)


def vc_print(*a, **k):
    return None


def vc_in(x, y):
    if hasattr(y, 'vc_contains'):
        return y.vc_contains(x)
    if is_symseq(y):
        s = as_seq(y)
        pure()
        try:
            e = z3.Not(forall_e(dim_expr(s.n), lambda k: z3.Not(truth(s.at(k) == x))))
        finally:
            unpure()
        return S(e)
    if isinstance(x, S):
        if isinstance(y, (builtins.dict,)):
            ys = builtins.list(y.keys())
        elif isinstance(y, builtins.str):
            raise Unsupported('substring test on a symbolic string')
        else:
            ys = builtins.list(y)
        es = [to_z3(x == v) for v in ys if not (v is None)]
        return sym.wrap(z3.simplify(z3.Or(*[as_bool(e) for e in es]))) if es else False
    if isinstance(y, (builtins.list, builtins.tuple)) and builtins.any(isinstance(v, S) for v in y):
        es = [x == v for v in y]
        out = []
        for e in es:
            if isinstance(e, S):
                out.append(as_bool(e.e))
            else:
                out.append(z3.BoolVal(builtins.bool(e)))
        return sym.wrap(z3.simplify(z3.Or(*out)))
    return x in y


BUILTINS = dict(
    len=vc_len, range=vc_range, enumerate=vc_enumerate, zip=vc_zip,
    reversed=vc_reversed, sum=vc_sum, any=vc_any, all=vc_all, min=vc_min,
    max=vc_max, isinstance=vc_isinstance, print=vc_print, sorted=vc_sorted,
    round=vc_round,
    float=mktype(builtins.float, 'f', _float),
    int=mktype(builtins.int, 'ib', _int),
    bool=mktype(builtins.bool, 'b', _bool),
    str=mktype(builtins.str, 's', _str),
    list=mktype(builtins.list, '', _list, (SSeq,)),
    tuple=mktype(builtins.tuple, '', _tuple),
)


# ------------------------------------------------------------------------------
# comprehensions
def destructure(unpack, x):
    if unpack == 0:
        return [x]
    vals = list(x)
    if len(vals) != len(unpack):
        raise ValueError('not enough / too many values to unpack')
    out = []
    for u, v in zip(unpack, vals):
        out += destructure(u, v)
    return out


def vc_comp(kind, it, unpack, elt, cond):
    if is_symseq(it):
        s = as_seq(it)
        if cond is not None:
            # undecidable filters leave the fragment; constant ones do not
            probe = z3.Int('?q')
            pure()
            try:
                c = cond(*destructure(unpack, s.at(probe)))
            finally:
                unpure()
            if isinstance(c, (S, T)):
                raise Unsupported('filtering comprehension over a symbolic sequence')
            if not c:
                return [] if kind in ('list', 'gen') else ({} if kind == 'dict' else set())
        if kind in ('list', 'gen'):
            return SSeq(s.n, lambda k: elt(*destructure(unpack, s.at(k))))
        if kind == 'dict':
            from .sdict import SDict
            return SDict.from_seq(SSeq(s.n, lambda k: elt(*destructure(unpack, s.at(k)))))
        raise Unsupported('set comprehension over a symbolic sequence')

    def gen():
        for x in it:
            args = destructure(unpack, x)
            if cond is None or cond(*args):
                yield elt(*args)
    if kind == 'gen':
        return gen()
    if kind == 'list':
        return builtins.list(gen())
    if kind == 'set':
        return builtins.set(gen())
    return builtins.dict(gen())


# ------------------------------------------------------------------------------
# the loop rule
def vc_for(it, body, get, set_, names):
    if hasattr(it, 'vc_hoare'):
        # an invariant is supplied with the iterable
        return it.vc_hoare(body, get, set_, names)
    if isinstance(it, range) and it.start == 0 and it.step == 1 and len(it) >= 32 and getattr(ctx(), 'long_ranges', False):
        # a long loop over a fixed range: one arbitrary iteration if it has a
        # closed form, all of them otherwise
        from .loops import symbolic_for
        try:
            return symbolic_for(SSeq(len(it), lambda k: sym.wrap(iz(k))), body, get, set_, names, exc=False)
        except Unsupported as exc:
            ctx().long_loop_reason = str(exc)
    if not is_symseq(it):
        for x in it:
            r = body(x)
            if r is not None:
                return r
        return None
    from .loops import symbolic_for
    return symbolic_for(as_seq(it), body, get, set_, names)
