"""Symbolic derivatives of z3 terms and the TensorFlow differentiation API."""
import itertools
import z3
from . import sym
from .sym import Unsupported, RS
from .tensor import T, as_t
from . import tensor as tn

R = z3.RealVal


def contains(t, x):
    st, seen = [t], set()
    while st:
        y = st.pop()
        if y.eq(x):
            return True
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_quantifier(y):
            st.append(y.body())
        else:
            st.extend(y.children())
    return False


def calculus(e, x):
    """d e / d x of a z3 real term (piecewise for ite; x is a constant or an
    application of an input function)"""
    memo = {}
    zero = R(0)
    xname, xargs = x.decl().name(), x.num_args()

    def d(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = (t, dd(t))
        return memo[k][1]

    def dd(t):
        if t.eq(x):
            return R(1)
        if sym.const_num(t) is not None:
            return zero
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = zero
            for y in ch:
                r = sym.e_add(r, d(y))
            return r
        if k == z3.Z3_OP_SUB:
            r = d(ch[0])
            for y in ch[1:]:
                r = sym.e_sub(r, d(y))
            return r
        if k == z3.Z3_OP_UMINUS:
            return sym.e_sub(zero, d(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = zero
            for i, y in enumerate(ch):
                term = d(y)
                for j, z in enumerate(ch):
                    if j != i:
                        term = sym.e_mul(term, z)
                r = sym.e_add(r, term)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = ch
            return sym.e_div(sym.e_sub(sym.e_mul(d(a), b), sym.e_mul(a, d(b))), sym.e_mul(b, b))
        if k == z3.Z3_OP_ITE:
            return sym.e_if(ch[0], d(ch[1]), d(ch[2]))
        if k == z3.Z3_OP_POWER:
            n = sym.const_num(ch[1])
            if n is not None:
                return sym.e_mul(sym.e_mul(sym.to_z3(n), sym.e_pow(ch[0], sym.to_z3(n - 1))), d(ch[0]))
        if k == z3.Z3_OP_TO_REAL:
            return zero
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if not contains(t, x):
                if n == xname and not all(sym.const_num(a) is not None for a in ch):
                    raise Unsupported('derivative through a symbolic index')
                if n == 'SUM' and occurs(t, xname):
                    raise Unsupported('derivative of a sum over the variable')
                return zero
            if len(ch) == 1:
                u = ch[0]
                if n == 'exp':
                    g = t
                elif n == 'log':
                    g = sym.e_div(R(1), u)
                elif n == 'sqrt':
                    g = sym.e_div(R(1), sym.e_mul(R(2), t))
                elif n == 'erf':
                    g = sym.e_div(sym.e_mul(R(2), sym.rfun('exp', sym.e_sub(zero, sym.e_mul(u, u)))), sym.rfun('sqrt', sym.PI))
                elif n == 'sin':
                    g = sym.rfun('cos', u)
                elif n == 'cos':
                    g = sym.e_sub(zero, sym.rfun('sin', u))
                else:
                    raise Unsupported('derivative of %s' % n)
                return sym.e_mul(g, d(u))
        raise Unsupported('derivative of %s' % t.decl())
    return d(sym.as_real(e))


def occurs(e, name):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().name() == name:
            return True
        st.extend(x.children())
    return False


def positions(t):
    if not all(isinstance(d, int) for d in t.shape_):
        raise Unsupported('derivative with respect to a tensor of symbolic size')
    return list(itertools.product(*[range(d) for d in t.shape_]))


def leaves(x):
    """{position: input term}"""
    out = {}
    for p in positions(x):
        e = x.at(*p)
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == RS and
                all(sym.const_num(a) is not None for a in e.children())):
            raise Unsupported('derivative with respect to a computed value')
        out[p] = e
    return out


def total(y):
    """TensorFlow differentiates the sum of all elements of the target"""
    if isinstance(y, (list, tuple)):
        r = R(0)
        for q in y:
            r = sym.e_add(r, total(q))
        return r
    y = as_t(y)
    e = R(0)
    for p in positions(y):
        e = sym.e_add(e, sym.as_real(y.at(*p)))
    return e


def table(shape, tab, dtype='float64'):
    def fn(*idx):
        if all(isinstance(i, int) for i in idx):
            return tab[tuple(idx)]
        items = list(tab.items())
        r = items[-1][1]
        for p, v in reversed(items[:-1]):
            cs = [tn.ieq(i, q) for i, q in zip(idx, p)]
            r = sym.e_if(z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs]), v, r)
        return r
    return T(shape, fn, dtype, False)


def gradient(y, x):
    e = total(y)
    tab = {p: calculus(e, v) for p, v in leaves(x).items()}
    return table(x.shape_, tab, x.dtype_)


class GradientTape:
    def __init__(self, persistent=False, watch_accessed_variables=True):
        self.auto, self.watched, self.used = watch_accessed_variables, [], False
        self.open = False

    def __enter__(self):
        self.open = True
        return self

    def __exit__(self, *a):
        self.open = False
        return False

    def watch(self, t):
        self.watched.append(t)

    def gradient(self, target, sources, **k):
        from .models import Variable
        single = not isinstance(sources, (list, tuple))
        out = []
        e = total(target)
        for s in ([sources] if single else sources):
            seen = any(w is s for w in self.watched) or (self.auto and isinstance(s, Variable) and s.trainable)
            lv = leaves(s)
            if not seen or not any(occurs(e, v.decl().name()) for v in lv.values()):
                out.append(None)
            else:
                out.append(gradient(target, s))
        return out[0] if single else out


class ForwardAccumulator:
    def __init__(self, primals, tangents):
        self.x, self.t = primals, as_t(tangents)
        if self.x.ndim != self.t.ndim:
            raise ValueError('tangent shape')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def jvp(self, y):
        y = as_t(y)
        lv = leaves(self.x)
        tab = {}
        for p in positions(y):
            e, r = sym.as_real(y.at(*p)), R(0)
            for q, v in lv.items():
                r = sym.e_add(r, sym.e_mul(sym.as_real(self.t.at(*q)), calculus(e, v)))
            tab[p] = r
        return table(y.shape_, tab, y.dtype_)


def hessians(ys, xs, **k):
    single = not isinstance(xs, (list, tuple))
    out = []
    for x in ([xs] if single else xs):
        lv = leaves(x)
        e = total(ys)
        tab = {}
        for p, v in lv.items():
            g = calculus(e, v)
            for q, w in lv.items():
                tab[p + q] = calculus(g, w)
        out.append(table(x.shape_ + x.shape_, tab, x.dtype_))
    return out


def clip_by_global_norm(ts, clip_norm, **k):
    n = z3.RealVal(0)
    for t in ts:
        if t is not None:
            n = sym.e_add(n, total(t * t))
    root = sym.rfun('sqrt', n)
    n = T((), lambda: root, 'float64', False)
    from .models import e_min, as_real
    c = tn.ew(lambda a, b: sym.e_if(sym.e_lt(b, a), sym.e_div(b, a), R(1)), n, as_t(clip_norm))
    return [t if t is None else t * c for t in ts], n


def install(tf):
    from .models import Namespace
    tf.GradientTape = GradientTape
    tf.autodiff = Namespace('tensorflow.autodiff', ForwardAccumulator=ForwardAccumulator)
    tf.hessians = hessians
    tf.clip_by_global_norm = clip_by_global_norm
