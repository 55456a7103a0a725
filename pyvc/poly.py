"""Normal form of real terms as (piecewise) Laurent polynomials over atoms.

nf(term) maps a z3 arithmetic term to  {monomial: coefficient}  where a
monomial is a sorted tuple of (atom id, Fraction exponent).  Atoms are interned
by a canonical key, so two terms that are equal by ring axioms, congruence of
uninterpreted functions, exp/log/sqrt laws, or linearity and extensionality of
finite sums have the same normal form.
"""
from fractions import Fraction
import z3
from . import sym

ONE = Fraction(1)
ZERO = Fraction(0)
_atoms = {}
_atom_keys = []


class TooBig(Exception):
    pass


MAXTERMS = 6000


def intern(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_keys)
        _atoms[key] = i
        _atom_keys.append(key)
    return i


def akey(i):
    return _atom_keys[i]


def p_const(c):
    return {(): Fraction(c)} if c != 0 else {}


def p_atom(key, e=ONE):
    return {((intern(key), Fraction(e)),): ONE}


def p_add(a, b, s=ONE):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, ZERO) + c * s
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, s):
    if s == 0:
        return {}
    return {m: c * s for m, c in a.items()}


def m_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, ZERO) + e
    return m_norm(d)


def m_norm(d):
    """drop zero exponents, indicator idempotence"""
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if akey(a)[0] == 'ind' and e > 0:
            e = ONE
        out.append((a, e))
    out.sort()
    return tuple(out)


def p_mul(a, b):
    if len(a) * len(b) > MAXTERMS * 4:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, ZERO) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXTERMS:
        raise TooBig()
    return expand_polys(r)


def expand_polys(r):
    """a 'poly' atom with integer exponent >= 1 is multiplied out; sin^2."""
    again = False
    for m in r:
        for a, e in m:
            k = akey(a)
            if (k[0] == 'poly' and e >= 1) or (k[0] == 'sin' and e >= 2):
                again = True
                break
        if again:
            break
    if not again:
        return r
    out = {}
    for m, c in r.items():
        done = False
        for i, (a, e) in enumerate(m):
            k = akey(a)
            if k[0] == 'poly' and e >= 1:
                rest = dict(m)
                rest[a] = e - 1
                base = {m_norm(rest): c}
                out = p_add(out, p_mul(base, dict(k[1])))
                done = True
                break
            if k[0] == 'sin' and e >= 2:
                rest = dict(m)
                rest[a] = e - 2
                base = {m_norm(rest): c}
                cosa = {((intern(('cos', k[1])), Fraction(2)),): -ONE, (): ONE}
                out = p_add(out, p_mul(base, cosa))
                done = True
                break
        if not done:
            out = p_add(out, {m: c})
    return out


def key(p):
    return tuple(sorted(p.items()))


def is_const(p):
    if not p:
        return ZERO
    if len(p) == 1 and () in p:
        return p[()]
    return None


def content(p):
    """p = coeff * mono * q with q canonical (leading coeff 1, no common mono)"""
    ms = sorted(p)
    # common monomial factor
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for a in set(common) | set(d):
                e1, e2 = common.get(a, ZERO), d.get(a, ZERO)
                e = min(e1, e2)
                if e != 0:
                    nc[a] = e
            common = nc
    common = {a: e for a, e in common.items() if akey(a)[0] != 'ind'}
    inv = m_norm({a: -e for a, e in common.items()})
    q = {}
    for m, c in p.items():
        q[m_mul(m, inv)] = c
    lead = q[sorted(q)[-1]]
    q = {m: c / lead for m, c in q.items()}
    return lead, m_norm(dict(common)), q


def p_pow(p, e):
    """p ** e for a Fraction e (p assumed in the domain)"""
    if e == 0:
        return p_const(1)
    if not p:
        if e > 0:
            return {}
        return p_atom(('div0',))
    if e.denominator == 1 and e > 0:
        r = p_const(1)
        for _ in range(int(e)):
            r = p_mul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        if any(akey(a)[0] == 'ind' for a, _ in m):
            return p_atom(('poly', key(p)), e)
        if e.denominator == 1:
            return {m_norm({a: x * e for a, x in m}): c ** int(e)}
        # c^e
        return p_mul(m_root(m, e), num_pow(c, e))
    lead, mono, q = content(p)
    if e.denominator != 1 and lead < 0:
        lead, q = -lead, {m: -c for m, c in q.items()}
    if len(q) == 1 and () in q:
        return p_pow({mono: lead * q[()]}, e)
    out = {m_norm({a: x * e for a, x in mono}): ONE} if e.denominator == 1 else m_root(mono, e)
    out = p_mul(out, num_pow(lead, e))
    q2 = expand_polys(q)
    if q2 is not q and q2 != q:     # a common denominator leaves sums to multiply out
        return p_mul(out, p_pow(q2, e))
    return p_mul(out, {((intern(('poly', key(q))), e),): ONE})


_positive = [None]      # the running normaliser's positivity oracle


def m_root(m, e):
    """(monomial)^e for a fractional e: (a^2)^(1/2) is |a|"""
    out = p_const(1)
    d = {}
    for a, x in m:
        y = x * e
        d[a] = y
        if e.denominator == 2 and x.denominator == 1 and x % 2 == 0 and y.denominator == 1 and y % 2 == 1:
            k = akey(a)
            atom = {((a, ONE),): ONE}
            if k[0] in ('exp', 'num') or (_positive[0] is not None and _positive[0](dict(k[1]) if k[0] == 'poly' else atom)):
                continue
            # sign(a) = 2 [a >= 0] - 1
            sgn = p_atom(('ind', ('ge0', key(dict(k[1]) if k[0] == 'poly' else atom))))
            out = p_mul(out, p_add(p_scale(sgn, Fraction(2)), p_const(-1)))
    return p_mul(out, {m_norm(d): ONE})


def num_pow(c, e):
    if e.denominator == 1:
        return p_const(c ** int(e))
    if c == 1:
        return p_const(1)
    if c > 0 and e.denominator == 2:
        n, d = c.numerator, c.denominator
        rn, rd = isqrt(n), isqrt(d)
        if rn is not None and rd is not None:
            return p_const(Fraction(rn, rd) ** e.numerator)
        # sqrt(n/d): integer atoms, prime-split
        out = p_const(1)
        for base, s in ((n, 1), (d, -1)):
            for pf, mult in factor(base):
                x = e * mult * s
                whole = x.numerator // x.denominator
                fr = x - whole
                out = p_scale(out, Fraction(pf) ** whole)
                if fr:
                    out = p_mul_raw(out, p_atom(('num', pf), fr))
        return out
    return p_atom(('num', c), e)


def p_mul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            r[m] = r.get(m, ZERO) + c1 * c2
    return r


def factor(n):
    out = []
    d = 2
    while d * d <= n and d < 10000:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            out.append((d, k))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


def isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def fix_num(p):
    """('num', b) atoms: integer part of the exponent becomes a coefficient"""
    out = {}
    for m, c in p.items():
        d = {}
        for a, e in m:
            k = akey(a)
            if k[0] == 'num':
                whole = e.numerator // e.denominator
                if whole:
                    c = c * (Fraction(k[1]) ** whole)
                    e = e - whole
            if e:
                d[a] = e
        m2 = m_norm(d)
        out[m2] = out.get(m2, ZERO) + c
        if out[m2] == 0:
            del out[m2]
    return out


def p_exp(p):
    r = p_const(1)
    for m, c in p.items():
        if m != () and len(m) == 1 and akey(m[0][0])[0] == 'log' and m[0][1] == 1:
            # exp(c*log(q)) = q^c
            q = dict(akey(m[0][0])[1])
            r = p_mul(r, p_pow(q, c))
            continue
        r = p_mul(r, {((intern(('exp', m)), c),): ONE})
    return r


class Normalizer:
    def __init__(self, positive=None):
        self.memo = {}
        self.positive = positive or (lambda p: False)
        self.depth = 0
        self.steps = 0

    # -- conditions -------------------------------------------------------
    def cond(self, e):
        """z3 bool -> polynomial over indicator atoms (0/1 valued)."""
        k = ('c', e.get_id())
        if k in self.memo:
            return self.memo[k][1]
        r = self._cond(e)
        self.memo[k] = (e, r)
        return r

    def _cond(self, e):
        if z3.is_true(e):
            return p_const(1)
        if z3.is_false(e):
            return {}
        d = e.decl().kind()
        if d == z3.Z3_OP_NOT:
            return p_add(p_const(1), self.cond(e.arg(0)), -ONE)
        if d == z3.Z3_OP_AND:
            r = p_const(1)
            for c in e.children():
                r = p_mul(r, self.cond(c))
            return r
        if d == z3.Z3_OP_OR:
            r = p_const(1)
            for c in e.children():
                r = p_mul(r, p_add(p_const(1), self.cond(c), -ONE))
            return p_add(p_const(1), r, -ONE)
        if d == z3.Z3_OP_XOR:
            a, b = self.cond(e.arg(0)), self.cond(e.arg(1))
            return p_add(p_add(a, b), p_mul(a, b), Fraction(-2))
        if d == z3.Z3_OP_IMPLIES:
            a, b = self.cond(e.arg(0)), self.cond(e.arg(1))
            return p_add(p_add(p_const(1), a, -ONE), p_mul(a, b))
        if d == z3.Z3_OP_ITE:
            c = self.cond(e.arg(0))
            a, b = self.cond(e.arg(1)), self.cond(e.arg(2))
            return p_add(p_mul(c, a), p_mul(p_add(p_const(1), c, -ONE), b))
        if d in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = self.nf(e.arg(0)), self.nf(e.arg(1))
            if d == z3.Z3_OP_LE:
                return self.ge0(p_add(b, a, -ONE), e)
            if d == z3.Z3_OP_GE:
                return self.ge0(p_add(a, b, -ONE), e)
            if d == z3.Z3_OP_LT:   # not a >= b
                return p_add(p_const(1), self.ge0(p_add(a, b, -ONE), e), -ONE)
            return p_add(p_const(1), self.ge0(p_add(b, a, -ONE), e), -ONE)
        if d == z3.Z3_OP_EQ:
            if z3.is_bool(e.arg(0)):
                a, b = self.cond(e.arg(0)), self.cond(e.arg(1))
                # a*b + (1-a)(1-b)
                ab = p_mul(a, b)
                return p_add(p_add(p_add(p_const(1), a, -ONE), b, -ONE), ab, Fraction(2))
            if e.arg(0).sort() == sym.ATOM:
                x, y = self.atomkey(e.arg(0)), self.atomkey(e.arg(1))
                if x == y:
                    return p_const(1)
                return p_atom(('ind', ('ateq',) + tuple(sorted((x, y)))))
            diff = p_add(self.nf(e.arg(0)), self.nf(e.arg(1)), -ONE)
            c = is_const(diff)
            if c is not None:
                return p_const(1 if c == 0 else 0)
            lead = diff[sorted(diff)[-1]]
            diff = p_scale(diff, 1 / lead)
            return p_atom(('ind', ('eq0', key(diff))))
        if d == z3.Z3_OP_DISTINCT and e.num_args() == 2:
            return p_add(p_const(1), self.cond(e.arg(0) == e.arg(1)), -ONE)
        if d == z3.Z3_OP_UNINTERPRETED or d == z3.Z3_OP_SELECT:
            return p_atom(('ind', ('bool', self.appkey(e))))
        if d == z3.Z3_OP_IS_INT:
            return p_atom(('ind', ('isint', key(self.nf(e.arg(0))))))
        if z3.is_quantifier(e):
            return p_atom(('ind', ('quant', e.sexpr())))
        return p_atom(('ind', ('opaque', e.sexpr())))

    def nonneg(self, p):
        """a sum of monomials that are visibly non-negative"""
        for m, c in p.items():
            if c < 0:
                return False
            for a, e in m:
                if e.denominator == 1 and e % 2 == 0 or e.denominator % 2 == 0:
                    continue
                if akey(a)[0] in ('exp', 'ind', 'num'):
                    continue
                if akey(a)[0] != 'poly' and self.positive({((a, ONE),): ONE}):
                    continue
                if akey(a)[0] == 'poly' and self.nonneg(dict(akey(a)[1])):
                    continue
                return False
        return True

    def ge0(self, p, e):
        c = is_const(p)
        if c is not None:
            return p_const(1 if c >= 0 else 0)
        if self.nonneg(p):
            return p_const(1)
        lead = abs(p[sorted(p)[-1]])
        p = p_scale(p, 1 / lead)
        if p[sorted(p)[-1]] < 0 and not self._intonly(p):
            # [p >= 0]  with negative lead: use 1 - [-p > 0] = 1-(1-[p>=0]);
            # canonical only up to boundary, so keep as its own atom
            return p_atom(('ind', ('ge0', key(p))))
        if self._intonly(p) and p[sorted(p)[-1]] < 0:
            # integers: p >= 0  <=>  not (-p - 1 >= 0) with integer coeffs
            q = p_scale(p, lead)
            if all(c.denominator == 1 for c in q.values()):
                q = p_add(p_scale(q, -ONE), p_const(-1))
                lead = abs(q[sorted(q)[-1]])
                q = p_scale(q, 1 / lead)
                return p_add(p_const(1), p_atom(('ind', ('ge0', key(q)))), -ONE)
        return p_atom(('ind', ('ge0', key(p))))

    def _intonly(self, p):
        for m in p:
            for a, e in m:
                k = akey(a)
                if not (k[0] == 'ivar' or (k[0] == 'bv')):
                    return False
        return True

    def atomkey(self, e):
        if e.num_args() == 0:
            return e.decl().name()
        return self.appkey(e)

    def appkey(self, e):
        if z3.is_app_of(e, z3.Z3_OP_SELECT):
            return ('select', e.arg(0).sexpr()) + tuple(
                key(self.nf(c)) for c in e.children()[1:])
        args = []
        for c in e.children():
            if z3.is_bool(c):
                args.append(key(self.cond(c)))
            elif z3.is_arith(c):
                args.append(key(self.nf(c)))
            elif c.sort() == sym.ATOM:
                args.append(self.atomkey(c))
            else:
                args.append(c.sexpr())
        return (e.decl().name(),) + tuple(args)

    # -- terms --------------------------------------------------------------
    def nf(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        self.steps += 1
        _positive[0] = self.positive
        if self.steps > 60000:
            raise TooBig()
        r = fix_num(self._nf(e))
        self.memo[k] = (e, r)
        return r

    def _nf(self, e):
        c = sym.const_num(e)
        if c is not None:
            return p_const(c)
        d = e.decl().kind()
        if d == z3.Z3_OP_ADD:
            r = {}
            for x in e.children():
                r = p_add(r, self.nf(x))
            return r
        if d == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.nf(ch[0])
            for x in ch[1:]:
                r = p_add(r, self.nf(x), -ONE)
            return r
        if d == z3.Z3_OP_UMINUS:
            return p_scale(self.nf(e.arg(0)), -ONE)
        if d == z3.Z3_OP_MUL:
            r = p_const(1)
            for x in e.children():
                r = p_mul(r, self.nf(x))
            return r
        if d == z3.Z3_OP_DIV:
            return p_mul(self.nf(e.arg(0)), p_pow(self.nf(e.arg(1)), -ONE))
        if d == z3.Z3_OP_POWER:
            c = sym.const_num(e.arg(1))
            if c is not None:
                return p_pow(self.nf(e.arg(0)), c)
        if d == z3.Z3_OP_TO_REAL:
            return self.nf(e.arg(0))
        if d == z3.Z3_OP_ITE:
            c = self.cond(e.arg(0))
            cc = is_const(c)
            if cc == 1:
                return self.nf(e.arg(1))
            if cc == 0:
                return self.nf(e.arg(2))
            a, b = self.nf(e.arg(1)), self.nf(e.arg(2))
            return p_add(p_mul(c, p_add(a, b, -ONE)), b)
        if d == z3.Z3_OP_TO_INT:
            a = self.nf(e.arg(0))
            c = is_const(a)
            if c is not None:
                return p_const(c.numerator // c.denominator)
            if self._intonly(a) and all(x.denominator == 1 for x in a.values()):
                return a
            return p_atom(('floor', key(a)))
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return p_atom(('idiv' if d == z3.Z3_OP_IDIV else 'mod',
                           key(self.nf(e.arg(0))), key(self.nf(e.arg(1)))))
        if z3.is_var(e):
            return p_atom(('bv', z3.get_var_index(e)))
        if d == z3.Z3_OP_UNINTERPRETED:
            name = e.decl().name()
            if e.num_args() == 0:
                kind = 'ivar' if e.sort() == sym.IS else 'var'
                if name.startswith('$j'):
                    return p_atom(('bv', name))
                return p_atom((kind, name))
            if name in ('SUM', 'MAXR', 'MINR', 'PRODR'):
                return self.reduction(name, e)
            if name == 'exp':
                return p_exp(self.nf(e.arg(0)))
            if name == 'log':
                return self.log(self.nf(e.arg(0)))
            if name == 'sqrt':
                return p_pow(self.nf(e.arg(0)), Fraction(1, 2))
            if name == 'pow':
                b = self.nf(e.arg(1))
                cb = is_const(b)
                if cb is not None:
                    return p_pow(self.nf(e.arg(0)), cb)
                return p_exp(p_mul(b, self.log(self.nf(e.arg(0)))))
            if name in ('sin', 'tan', 'erf', 'tanh', 'arcsin', 'arctan'):
                a = self.nf(e.arg(0))
                if not a:
                    return {}
                if name == 'sin':
                    t = self.trig(name, a)
                    if t is not None:
                        return t
                inv = {'erf': 'erfinv'}.get(name)
                if inv and len(a) == 1:
                    # erf(erfinv(z)) = z; contracts prove -1 < z < 1 themselves
                    (m, cf), = a.items()
                    if cf in (1, -1) and len(m) == 1 and m[0][1] == 1:
                        k = akey(m[0][0])
                        if k[0] == 'app' and k[1][0] == inv:
                            return p_scale(dict(k[1][1]), cf)
                lead = a[sorted(a)[-1]]
                if lead < 0:
                    return p_scale(p_atom((name, key(p_scale(a, -ONE)))), -ONE)
                return p_atom((name, key(a)))
            if name == 'lgamma' and is_const(self.nf(e.arg(0))) in (1, 2):
                return {}
            if name == 'cos':
                a = self.nf(e.arg(0))
                if not a:
                    return p_const(1)
                t = self.trig(name, a)
                if t is not None:
                    return t
                lead = a[sorted(a)[-1]]
                if lead < 0:
                    a = p_scale(a, -ONE)
                return p_atom(('cos', key(a)))
            return p_atom(('app', self.appkey(e)))
        if d == z3.Z3_OP_SELECT:
            return p_atom(('app', self.appkey(e)))
        return p_atom(('opaque', e.sexpr()))

    def trig(self, name, a):
        """angle sums, and sin/cos of arctan2 and arccos"""
        if len(a) == 1:
            (m, cf), = a.items()
            if cf.denominator == 1 and cf % 2 == 0 and len(m) > 1 and ('var', 'PI') in [akey(b) for b, x in m if x == 1] and all(
                    akey(b)[0] == 'floor' and x.denominator == 1 and x > 0 for b, x in m if akey(b) != ('var', 'PI')):
                return p_const(1) if name == 'cos' else {}      # whole turns
            if cf in (1, -1) and len(m) == 1 and m[0][1] == 1:
                k = akey(m[0][0])
                if k[0] == 'app' and k[1][0] == 'arctan2':
                    y, x = dict(k[1][1]), dict(k[1][2])
                    h = p_pow(p_add(p_mul(x, x), p_mul(y, y)), Fraction(-1, 2))
                    return p_mul(x, h) if name == 'cos' else p_scale(p_mul(y, h), cf)
                if k[0] == 'app' and k[1][0] == 'arccos':
                    u = dict(k[1][1])
                    if name == 'cos':
                        return u
                    return p_scale(p_pow(p_add(p_const(1), p_mul(u, u), -ONE), Fraction(1, 2)), cf)
            return None
        if len(a) > 6:
            return None
        m = sorted(a)[-1]
        p, q = {m: a[m]}, {k: v for k, v in a.items() if k != m}

        def f(n, p):
            t = self.trig(n, p)
            if t is not None:
                return t
            c = is_const(p)
            lead = p[sorted(p)[-1]]
            if lead < 0:
                r = p_atom((n, key(p_scale(p, -ONE))))
                return r if n == 'cos' else p_scale(r, -ONE)
            return p_atom((n, key(p)))
        if name == 'cos':
            return p_add(p_mul(f('cos', p), f('cos', q)), p_mul(f('sin', p), f('sin', q)), -ONE)
        return p_add(p_mul(f('sin', p), f('cos', q)), p_mul(f('cos', p), f('sin', q)))

    def log(self, p):
        c = is_const(p)
        if c == 1:
            return {}
        if c is not None and c > 0 and c != 1:
            r = {}
            for base, s in ((c.numerator, 1), (c.denominator, -1)):
                for pf, mult in factor(base):
                    r = p_add(r, p_atom(('log', key(p_const(pf)))), Fraction(s * mult))
            return r
        if len(p) == 1:
            (m, c), = p.items()
            ok = c > 0
            r = {}
            for a, e in m:
                k = akey(a)
                if k[0] == 'exp':
                    r = p_add(r, {k[1]: ONE}, e)
                elif k[0] == 'num':
                    r = p_add(r, self.log(p_const(k[1])), e)
                elif k[0] == 'poly' and (self.positive(dict(k[1])) or len(m) == 1 and c == 1):
                    r = p_add(r, p_atom(('log', k[1])), e)
                elif self.positive({((a, ONE),): ONE}) or (len(m) == 1 and c > 0):
                    r = p_add(r, p_atom(('log', key({((a, ONE),): ONE}))), e)
                else:
                    ok = False
                    break
            if ok:
                if c != 1:
                    r = p_add(r, self.log(p_const(c)))
                return r
            return p_atom(('log', key(p)))
        lead, mono, q = content(p)
        if lead < 0:
            lead, q = -lead, {m: -x for m, x in q.items()}
        if (lead != 1 or mono != ()) and (
                mono == () or self.positive({mono: ONE})):
            r = p_atom(('log', key(q)))
            r = p_add(r, self.log({mono: lead}))
            return r
        return p_atom(('log', key(p)))

    def lam_height(self, lam):
        """1 + the height of the binders inside that use this bound variable;
        names of bound variables are thereby independent of closed subterms"""
        k = ('h', lam.get_id())
        r = self.memo.get(k)
        if r is None:
            v = z3.Const('$ph%d' % self.depth, lam.var_sort(0))
            self.depth += 1
            try:
                h = 0
                for q in self.binders_with(z3.substitute_vars(lam.body(), v), v):
                    h = max(h, self.lam_height(q))
            finally:
                self.depth -= 1
            self.memo[k] = r = (lam, h + 1)
        return r[1]

    def binders_with(self, e, v):
        """all lambdas in e that mention v"""
        out, st, seen = [], [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                if term_mentions(x.body(), v):
                    out.append(x)
                    st.append(x.body())
                continue
            st.extend(x.children())
        return out

    def reduction(self, name, e):
        lam, n = e.arg(0), e.arg(1)
        nk = key(self.nf(n))
        if not nk:
            return {}
        if not z3.is_quantifier(lam):
            return p_atom(('app', self.appkey(e)))
        jname = '$j%d' % self.lam_height(lam)
        j = z3.Const(jname, lam.var_sort(0))
        body = z3.substitute_vars(lam.body(), j)
        b = self.nf(body)
        if name != 'SUM':
            return p_atom(('red', name, key(b), nk, jname))
        jdep = lambda a: depends(a, jname)
        groups = {}
        for m, c in b.items():
            free = tuple(x for x in m if not jdep(x[0]))
            bound = tuple(x for x in m if jdep(x[0]))
            groups.setdefault(bound, {})
            groups[bound][free] = groups[bound].get(free, ZERO) + c
        r = {}
        for bound, coef in groups.items():
            if bound == ():
                s = self.nf(n)
            else:
                s = p_atom(('sum', bound, nk, jname))
            r = p_add(r, p_mul(coef, s))
        return r


def term_mentions(e, v):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif x.eq(v):
            return True
        else:
            st.extend(x.children())
    return False


_dep_memo = {}


def depends(a, name):
    k = (a, name)
    r = _dep_memo.get(k)
    if r is None:
        r = _dep_key(akey(a), name)
        _dep_memo[k] = r
    return r


def _dep_key(k, name):
    if k == ('bv', name):
        return True
    if k and k[0] in ('sum', 'red') and k[-1] == name:
        return False
    for x in k:
        if isinstance(x, tuple):
            # monomial element (atom id, Fraction)
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], Fraction):
                if depends(x[0], name):
                    return True
            elif _dep_key(x, name):
                return True
    return False


def clear_denominators(p):
    """multiply p by positive powers of the 'poly' atoms with negative
    exponents; p == 0 iff the result == 0 (divisors non-zero)."""
    for _ in range(12):
        worst = {}
        for m in p:
            for a, e in m:
                if akey(a)[0] == 'poly' and e < 0:
                    worst[a] = min(worst.get(a, ZERO), e)
        if not worst:
            return p
        a, e = sorted(worst.items())[0]
        # multiply by atom^-e  (e negative)
        q = {}
        base = dict(akey(a)[1])
        for m, c in p.items():
            d = dict(m)
            x = d.pop(a, ZERO) - e
            rest = {m_norm(d): c}
            whole = int(x) if x.denominator == 1 else x.numerator // x.denominator
            fr = x - whole
            t = rest
            for _i in range(whole):
                t = p_mul(t, base)
            if fr:
                t = p_mul(t, {((a, fr),): ONE})
            q = p_add(q, t)
        p = fix_num(q)
        if not p:
            return p
    return p


def is_zero(p):
    if not p:
        return True
    try:
        return not clear_denominators(p)
    except TooBig:
        return False
