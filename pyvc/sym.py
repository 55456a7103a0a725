"""Symbolic scalars, path exploration and obligations."""
import time
from fractions import Fraction
import numbers
import numpy as _np
import z3


class Unsupported(BaseException):
    """The code left the fragment the verifier can decide."""


class Infeasible(BaseException):
    """The current path condition is contradictory (path is dropped)."""


class PathLimit(Unsupported):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError('no symbolic context active')
    return CTX


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
ATOM = z3.DeclareSort('Atom')


def is_num(x):
    return isinstance(x, (bool, int, float, Fraction, _np.integer,
                          _np.floating, _np.bool_))


INF = z3.Real('INFINITY')
NAN = z3.Real('NAN')
PI = z3.Real('PI')
PI_AX = z3.And(PI > z3.RealVal('3.14159265'), PI < z3.RealVal('3.14159266'))

_atom_consts = {}


def atom_const(s):
    """z3 constant for a concrete string (distinct strings are distinct)."""
    if s not in _atom_consts:
        _atom_consts[s] = z3.Const('str:%s' % s, ATOM)
    return _atom_consts[s]


def atom_axioms():
    cs = list(_atom_consts.values())
    if len(cs) > 1:
        return [z3.Distinct(*cs)]
    return []


def frac(f):
    """The rational meant by a float: the decimal literal as written, or a
    simple fraction when the float is a rounded intermediate result."""
    r = Fraction(repr(f))
    if len(repr(f).replace('.', '').replace('-', '').lstrip('0')) > 14:
        q = Fraction(f).limit_denominator(10 ** 6)
        if abs(q - Fraction(f)) <= abs(Fraction(f)) * Fraction(1, 10 ** 14):
            return q
    return r


def to_z3(x):
    """Coerce a python number / S / string into a z3 expression."""
    if isinstance(x, S):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if f != f:
            return NAN
        if f in (float('inf'), float('-inf')):
            return INF if f > 0 else -INF
        if f == 3.141592653589793:
            return PI
        if abs(f - 3.141592653589793) < 1e-12:
            return PI
        if f == 3.141592653589793 * 2:
            return 2 * PI
        if f == 3.141592653589793 / 2:
            return PI / 2
        return z3.RealVal(frac(f))
    if isinstance(x, str):
        return atom_const(x)
    if z3.is_expr(x):
        return x
    if hasattr(x, 'shape') and getattr(x, 'shape', None) == () \
            and hasattr(x, 'item_scalar'):
        return to_z3(x.item_scalar())
    if isinstance(x, _np.ndarray) and x.shape == ():
        return to_z3(x.item())
    raise Unsupported('cannot use %r as a symbolic scalar' % (type(x),))


def as_arith(e):
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def as_real(e):
    e = as_arith(e)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def pair(a, b):
    a, b = as_arith(a), as_arith(b)
    if a.sort() == b.sort():
        return a, b
    return as_real(a), as_real(b)


def as_bool(e):
    if z3.is_bool(e):
        return e
    return e != 0


def const_num(e):
    """Concrete Fraction of a z3 numeral, or None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def fold(e):
    """light constant folding."""
    return e


def wrap(e):
    """z3 expression -> python constant if literally constant, else S."""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    return S(e)


def S_(e):
    return S(e)


# --- uninterpreted real functions ------------------------------------------
_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


def rfun(name, *args):
    """application of an uninterpreted real function."""
    args = [as_real(a) for a in args]
    return uf(name, *([RS] * (len(args) + 1)))(*args)


def e_add(a, b):
    a, b = pair(a, b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None:
        return _num(ca + cb, a.sort())
    if ca == 0:
        return b
    if cb == 0:
        return a
    return a + b


def _num(fr, sort):
    if sort == IS and fr.denominator == 1:
        return z3.IntVal(fr.numerator)
    return z3.RealVal(fr)


def e_sub(a, b):
    a, b = pair(a, b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None:
        return _num(ca - cb, a.sort())
    if cb == 0:
        return a
    return a - b


def e_mul(a, b):
    a, b = pair(a, b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None:
        return _num(ca * cb, a.sort())
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca == 0 or cb == 0:
        return _num(Fraction(0), a.sort())
    return a * b


def e_div(a, b):
    a, b = as_real(a), as_real(b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None and cb != 0:
        return z3.RealVal(ca / cb)
    if cb == 1:
        return a
    return a / b


def e_pow(a, b):
    a, b = as_arith(a), as_arith(b)
    cb, ca = const_num(b), const_num(a)
    if cb is not None and cb.denominator == 1:
        n = int(cb)
        if ca is not None and (ca != 0 or n >= 0):
            return _num(ca ** n, a.sort() if n >= 0 else RS)
        if abs(n) <= 12:
            if n == 0:
                return _num(Fraction(1), a.sort())
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            return r if n > 0 else e_div(z3.RealVal(1), r)
    if cb is not None and cb == Fraction(1, 2):
        return rfun('sqrt', a)
    return rfun('pow', a, b)


def finite_mode(a):
    """the contract declared its inputs finite (env.finite()): only terms that
    mention inf or nan can be non-finite"""
    if not getattr(CTX, 'finite', False):
        return False
    st, seen = [a], set()
    while st:
        x = st.pop()
        if x.eq(INF) or x.eq(NAN):
            return False
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return True


NEG_INF = -INF


def inf_sign(a):
    return 1 if a.eq(INF) else -1 if a.eq(NEG_INF) else 0


def inf_cmp(a, b, strict):
    """comparison with an infinity (finite mode), or None"""
    sa, sb = inf_sign(a), inf_sign(b)
    if sa and sb:
        return z3.BoolVal(sa < sb if strict else sa <= sb)
    if sb and finite_mode(a):
        return z3.BoolVal(sb > 0)
    if sa and finite_mode(b):
        return z3.BoolVal(sa < 0)
    return None


def e_lt(a, b):
    a, b = pair(a, b)
    r = inf_cmp(a, b, True)
    if r is not None:
        return r
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca < cb)
    return a < b


def e_le(a, b):
    a, b = pair(a, b)
    r = inf_cmp(a, b, False)
    if r is not None:
        return r
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca <= cb)
    return a <= b


def e_eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if a.sort() == b.sort() and (z3.is_bool(a) or a.sort() == ATOM):
        return a == b
    if a.sort() == ATOM or b.sort() == ATOM:
        return z3.BoolVal(False)
    a, b = pair(a, b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca == cb)
    return a == b


def e_if(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() != b.sort():
        a, b = pair(a, b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def e_mod(a, b):
    a, b = pair(a, b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None and cb != 0:
        return _num(ca - cb * (ca // cb), a.sort())
    if a.sort() == IS:
        if cb is not None and cb > 0:
            return a % b
        if cb is None and CTX is not None and CTX.known(b > 0):
            return a % b
        raise Unsupported('int modulo with non-constant divisor')
    return a - b * z3.ToReal(z3.ToInt(a / b))


def e_floordiv(a, b):
    a, b = pair(a, b)
    ca, cb = const_num(a), const_num(b)
    if ca is not None and cb is not None and cb != 0:
        return _num(Fraction(ca // cb), a.sort())
    if a.sort() == IS:
        if cb is not None and cb > 0:
            return a / b
        if cb is None and CTX is not None and CTX.known(b > 0):
            return a / b
        raise Unsupported('int floor division with non-constant divisor')
    return z3.ToReal(z3.ToInt(a / b))


def e_abs(a):
    a = as_arith(a)
    return e_if(e_le(_num(Fraction(0), a.sort()), a), a, -a)


def e_toint(a):
    """python int(): truncation towards zero"""
    a = as_arith(a)
    if a.sort() == IS:
        return a
    c = const_num(a)
    if c is not None:
        return z3.IntVal(int(c))
    # ToInt(ToReal(i)) -> i
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return a.arg(0)
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def e_floor(a):
    a = as_arith(a)
    if a.sort() == IS:
        return a
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return a.arg(0)
    return z3.ToInt(a)


def T_(s):
    from . import tensor as tn
    return tn.as_t(s)


class S:
    """A symbolic scalar."""
    __slots__ = ('e', 'dtype')
    __array_ufunc__ = None
    shape = ()
    ndim = 0

    def __init__(self, e, dtype=None):
        self.e = e
        self.dtype = dtype

    def _bin(self, other, f, swap=False):
        if hasattr(type(other), 'each_value'):      # an array of values
            return other.each_value(lambda x: self._bin(x, f, swap))
        if isinstance(other, (_np.ndarray, list)) and getattr(other, 'shape', None) != ():
            from . import tensor as tn
            if isinstance(other, list):
                conv = getattr(ctx(), 'list_operand', None)     # of numpy's scalars (where the contract says so)
                return NotImplemented if conv is None else conv([self._bin(x, f, swap) for x in other])
            g = (lambda a, b: f(b, a)) if swap else f
            return tn.ew(g, T_(self), tn.as_t(other))
        try:
            o = to_z3(other)
        except Unsupported:
            return NotImplemented
        r = f(o, self.e) if swap else f(self.e, o)
        return S(r)

    def __add__(self, o): return self._bin(o, e_add)
    def __radd__(self, o): return self._bin(o, e_add, True)
    def __sub__(self, o): return self._bin(o, e_sub)
    def __rsub__(self, o): return self._bin(o, e_sub, True)
    def __mul__(self, o): return self._bin(o, e_mul)
    def __rmul__(self, o): return self._bin(o, e_mul, True)
    def __truediv__(self, o): return self._bin(o, e_div)
    def __rtruediv__(self, o): return self._bin(o, e_div, True)
    def __pow__(self, o): return self._bin(o, e_pow)
    def __rpow__(self, o): return self._bin(o, e_pow, True)
    def __mod__(self, o): return self._bin(o, e_mod)
    def __rmod__(self, o): return self._bin(o, e_mod, True)
    def __floordiv__(self, o): return self._bin(o, e_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, e_floordiv, True)
    def __neg__(self): return S(e_sub(_num(Fraction(0), as_arith(self.e).sort()), self.e))
    def __pos__(self): return self
    def __abs__(self): return S(e_abs(self.e))
    def __lt__(self, o): return self._bin(o, e_lt)
    def __le__(self, o): return self._bin(o, e_le)
    def __gt__(self, o): return self._bin(o, e_lt, True)
    def __ge__(self, o): return self._bin(o, e_le, True)

    def __eq__(self, o):
        if o is None or isinstance(o, (list, tuple, dict, type)):
            return False
        r = self._bin(o, e_eq)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, (list, tuple, dict, type)):
            return True
        r = self._bin(o, e_eq)
        if r is NotImplemented:
            return r
        return S(z3.Not(r.e)) if not isinstance(r, bool) else not r

    def __and__(self, o): return self._bin(o, lambda a, b: z3.And(as_bool(a), as_bool(b)))
    def __rand__(self, o): return self.__and__(o)
    def __or__(self, o): return self._bin(o, lambda a, b: z3.Or(as_bool(a), as_bool(b)))
    def __ror__(self, o): return self.__or__(o)
    def __xor__(self, o): return self._bin(o, lambda a, b: z3.Xor(as_bool(a), as_bool(b)))
    def __invert__(self): return S(z3.Not(as_bool(self.e)))

    def __bool__(self):
        return ctx().branch(as_bool(self.e))

    def __hash__(self):
        if self.e.sort() == ATOM:
            raise Unsupported('hashing a symbolic string')
        raise Unsupported('hashing a symbolic value')

    def __index__(self):
        return ctx().concretize(self.e)

    def __int__(self):
        raise Unsupported('int() of a symbolic value')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __repr__(self):
        s = str(self.e)
        return '<S %s>' % (s if len(s) < 80 else s[:77] + '...')

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def is_integer(self):
        return S(z3.IsInt(as_real(self.e)))

    def numpy(self):
        return self

    def item(self):
        return self

    def item_scalar(self):
        return self

    def astype(self, dtype):
        return S(cast_e(self.e, dtype))

    # numpy scalar indexing: x[...], x[np.newaxis]
    def __getitem__(self, k):
        from .tensor import T
        return T((), lambda: self.e)[k]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def get_shape(self):
        from .tensor import TShape
        return TShape(())


def dtype_kind(d):
    """'b', 'i' or 'f' for the dtypes the code uses."""
    if d is None:
        return None
    d = getattr(d, 'vc_real', d)
    if d is bool or d is _np.bool_:
        return 'b'
    if d is int:
        return 'i'
    if d is float:
        return 'f'
    if isinstance(d, DType):
        return d.kind
    n = getattr(d, '__name__', None) or getattr(d, 'name', None) or str(d)
    n = n.lower()
    if 'bool' in n:
        return 'b'
    if 'int' in n:
        return 'i'
    if 'float' in n or 'double' in n:
        return 'f'
    raise Unsupported('dtype %r' % (d,))


class DType:
    """stand-in for tf dtypes"""
    def __init__(self, name):
        self.name = name
        self.kind = 'b' if 'bool' in name else ('i' if 'int' in name else 'f')

    @property
    def as_numpy_dtype(self):
        return self

    def __eq__(self, o):
        if isinstance(o, DType):
            return o.name == self.name
        if isinstance(o, str):
            return o == self.name
        n = getattr(o, '__name__', getattr(o, 'name', None))
        return n == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'tf.' + self.name

    def __call__(self, x):
        return cast_any(x, self)

    @property
    def min(self):
        return -3.4028235e38 if self.name == 'float32' else -1.7976931348623157e308

    @property
    def max(self):
        return 3.4028235e38 if self.name == 'float32' else 1.7976931348623157e308


def cast_e(e, dtype):
    k = dtype_kind(dtype)
    if k == 'b':
        return as_bool(e)
    if k == 'i':
        return e_toint(e)
    if k == 'f':
        return as_real(e)
    return e


def cast_any(x, d):
    if hasattr(x, 'astype'):
        return x.astype(d)
    if isinstance(x, (int, float, bool)):
        k = dtype_kind(d)
        return bool(x) if k == 'b' else int(x) if k == 'i' else float(x)
    raise Unsupported('cast of %r' % type(x))


# --------------------------------------------------------------------------
class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'path')

    def __init__(self, name, status, backend, t, detail, path):
        self.name, self.status, self.backend = name, status, backend
        self.time, self.detail, self.path = t, detail, path

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    time=round(self.time, 4), detail=self.detail,
                    path=self.path)


class Ctx:
    """One path of one contract."""

    def __init__(self, prefix, report, budget):
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.pc = [PI_AX, INF > 10 ** 300]
        self.facts = []          # assumed, not branch conditions
        self.report = report
        self.counter = {}
        self.budget = budget
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        for c in self.pc:
            self.solver.add(c)
        self.notes = []
        self.nosplit = 0

    # fresh symbols are numbered per name, so re-execution is deterministic
    def fresh_name(self, name):
        i = self.counter.get(name, 0)
        self.counter[name] = i + 1
        return name if i == 0 else '%s!%d' % (name, i)

    def fresh(self, name, sort=RS):
        return z3.Const(self.fresh_name(name), sort)

    def real(self, name):
        return S(self.fresh(name, RS))

    def int(self, name, lo=None, hi=None):
        s = S(self.fresh(name, IS))
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s < hi)
        return s

    def bool(self, name):
        return S(self.fresh(name, BS))

    def atom(self, name):
        return S(self.fresh(name, ATOM))

    def flag(self, name):
        """a symbolic boolean configuration flag, decided by forking."""
        return bool(self.bool(name))

    def choose(self, name, options):
        """fork over a finite list of alternatives"""
        options = list(options)
        for o in options[:-1]:
            if self.flag('%s=%s' % (name, o)):
                return o
        return options[-1]

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        e = as_bool(to_z3(c))
        self.pc.append(e)
        self.solver.add(e)

    def assume_fact(self, e):
        """quantified facts: used by the prover, not by branch pruning"""
        self.facts.append(e)

    def check(self, e, timeout=2000):
        self.solver.push()
        self.solver.set('timeout', timeout)
        self.solver.add(e)
        for a in atom_axioms():
            self.solver.add(a)
        r = self.solver.check()
        self.solver.pop()
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.nosplit:
            raise Unsupported('branch on symbolic value inside a pure term')
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
        else:
            if i > self.budget:
                raise PathLimit('too many branches on one path')
            can_t = self.check(e) != z3.unsat
            can_f = self.check(z3.Not(e)) != z3.unsat
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f and self.facts:
                can_t, can_f = self.fact_check(e), self.fact_check(z3.Not(e))
                if not can_t and not can_f:
                    raise Infeasible()
            v = can_t
            if can_t and can_f:
                self.alternatives.append(self.trace + [False])
            self.trace.append(v)
        c = e if v else z3.Not(e)
        self.pc.append(c)
        self.solver.add(c)
        return v

    def fact_check(self, e):
        """is e possible given also the quantified facts?"""
        s = z3.Solver()
        s.set('timeout', 400)
        for x in self.pc + self.facts + atom_axioms():
            s.add(x)
        s.add(e)
        return s.check() != z3.unsat

    def concretize(self, e):
        c = const_num(z3.simplify(e))
        if c is not None:
            return int(c)
        if e.sort() != IS:
            raise Unsupported('index with a non-integer symbolic value')
        for _ in range(128):
            # pick a candidate value
            i = len(self.trace)
            self.solver.push()
            r = self.solver.check()
            if r != z3.sat:
                self.solver.pop()
                raise Unsupported('cannot concretize index')
            v = self.solver.model().eval(e, model_completion=True).as_long()
            self.solver.pop()
            # smallest feasible for determinism
            while self.check(e < v) == z3.sat:
                self.solver.push()
                self.solver.add(e < v)
                self.solver.check()
                v = self.solver.model().eval(e, model_completion=True).as_long()
                self.solver.pop()
                if v < -200:
                    raise Unsupported('unbounded index')
            if self.branch(e == v):
                return v
        raise Unsupported('index ranges over too many values')

    def known(self, e):
        """True if e follows from the path condition (cheap)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e), 1000) == z3.unsat

    def prove(self, name, goal, **kw):
        from . import prover
        return prover.prove(self, name, goal, **kw)


class Report:
    """All obligations of one contract (over all its paths)."""

    def __init__(self):
        self.obligations = []
        self.paths = 0
        self.covers = {}
        self.unsupported = []
        self.outcomes = []

    def add(self, ob):
        self.obligations.append(ob)


def explore(run, report, max_paths=4000, budget=400, deadline=None):
    """Run `run(ctx)` on every feasible path."""
    global CTX
    stack = [[]]
    while stack:
        if deadline is not None and time.time() > deadline:
            report.unsupported.append('time limit')
            return
        if report.paths >= max_paths:
            report.unsupported.append('path limit')
            return
        prefix = stack.pop()
        c = Ctx(prefix, report, budget)
        CTX = c
        try:
            run(c)
            report.paths += 1
        except Infeasible:
            pass
        except Unsupported as exc:
            import traceback
            tb = traceback.extract_tb(exc.__traceback__)
            loc = ['%s:%s' % (f.filename.split('/')[-1], f.lineno)
                   for f in tb][-6:]
            report.unsupported.append('%s [%s]' % (exc, ' '.join(loc)))
            report.paths += 1
        finally:
            CTX = None
        stack.extend(c.alternatives)
