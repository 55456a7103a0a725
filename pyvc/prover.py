"""Discharging verification conditions: ring normal form first, then z3 with
ground instances of the axioms of the uninterpreted functions."""
import math
import random
import time
from fractions import Fraction
import z3
from . import sym, poly, tensor
from .tensor import SUM
from .sym import RS, IS, BS, as_bool, as_real, S, Obligation, Unsupported

Z3_TIMEOUT = 8000
STATS = {'nf': 0, 'z3': 0, 'z3_time': 0.0, 'nf_time': 0.0, 'queries': 0}


def subterms(e, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        if z3.is_quantifier(x):
            continue
        st.extend(x.children())
    return out


def has_bound(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i]
    if z3.is_var(e):
        r = True
    elif z3.is_quantifier(e):
        r = False
    else:
        r = any(has_bound(c, memo) for c in e.children())
    memo[i] = r
    return r


def ground_apps(exprs):
    seen, out = set(), []
    for e in exprs:
        subterms(e, seen, out)
    return [x for x in out if z3.is_app(x) and x.num_args() > 0
            and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def axioms(c, exprs, rounds=2):
    """ground axiom instances for the uninterpreted functions occurring"""
    done = set()
    ax = []
    pool = list(exprs)
    for _ in range(rounds):
        new = []
        byname = {}
        for t in ground_apps(pool):
            byname.setdefault(t.decl().name(), []).append(t)
        for n, ts in byname.items():
            for t in ts:
                if t.get_id() in done:
                    continue
                done.add(t.get_id())
                new += app_axioms(c, n, t)
        for n in ('exp', 'log', 'erf', 'tanh', 'gammacdf', 'arccos', 'sqrt'):
            ts = byname.get(n, [])
            for i in range(min(len(ts), 6)):
                for j in range(min(len(ts), 6)):
                    if i != j:
                        a, b = ts[i], ts[j]
                        if (n, a.get_id(), b.get_id()) in done:
                            continue
                        done.add((n, a.get_id(), b.get_id()))
                        x, y = a.arg(0), b.arg(0)
                        if n == 'arccos':
                            new.append(z3.Implies(z3.And(x < y, x >= -1, y <= 1), a > b))
                        elif n in ('log',):
                            new.append(z3.Implies(z3.And(x > 0, x < y), a < b))
                        elif n == 'sqrt':
                            new.append(z3.Implies(z3.And(x >= 0, x < y), a < b))
                        else:
                            new.append(z3.Implies(x < y, a < b))
                            new.append(z3.Implies(x == y, a == b))
        ax += new
        pool = new
        if not new:
            break
    return ax


def app_axioms(c, n, t):
    R = z3.RealVal
    if n == 'exp':
        x = t.arg(0)
        return [t > 0, t >= 1 + x, z3.Implies(x == 0, t == 1),
                z3.Implies(x < 0, t < 1), z3.Implies(x > 0, t > 1)]
    if n == 'log':
        x = t.arg(0)
        return [z3.Implies(x == 1, t == 0), z3.Implies(x > 0, t <= x - 1),
                z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0),
                z3.Implies(x > 0, sym.rfun('exp', t) == x)]
    if n == 'sqrt':
        x = t.arg(0)
        # sqrt is evaluated under a non-negative argument (assumption)
        return [t >= 0, z3.Implies(x >= 0, t * t == x), z3.Implies(x > 0, t > 0)]
    if n in ('sin', 'cos'):
        x = t.arg(0)
        s, co = sym.rfun('sin', x), sym.rfun('cos', x)
        return [t >= -1, t <= 1, s * s + co * co == 1,
                z3.Implies(z3.And(x >= 0, x <= sym.PI), s >= 0),
                z3.Implies(x == 0, z3.And(s == 0, co == 1))]
    if n == 'erfinv':
        x = t.arg(0)
        return [z3.Implies(z3.And(x > -1, x < 1), sym.rfun('erf', t) == x),
                z3.Implies(x == 0, t == 0), z3.Implies(z3.And(x > 0, x < 1), t > 0), z3.Implies(z3.And(x < 0, x > -1), t < 0)]
    if n == 'erf' or n == 'tanh':
        x = t.arg(0)
        return [t > -1, t < 1, z3.Implies(x == 0, t == 0),
                z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0)]
    if n == 'arccos':
        x = t.arg(0)
        return [z3.Implies(z3.And(x >= -1, x <= 1),
                           z3.And(t >= 0, t <= sym.PI, sym.rfun('cos', t) == x,
                                  sym.rfun('sin', t) >= 0)),
                z3.Implies(x == 1, t == 0)]
    if n == 'arcsin':
        x = t.arg(0)
        return [z3.Implies(z3.And(x >= -1, x <= 1),
                           z3.And(t >= -sym.PI / 2, t <= sym.PI / 2,
                                  sym.rfun('sin', t) == x))]
    if n == 'arctan2':
        y, x = t.arg(0), t.arg(1)
        return [t >= -sym.PI, t <= sym.PI, z3.Implies(y >= 0, t >= 0), z3.Implies(z3.And(y >= 0, x >= 0), t <= sym.PI / 2),
                z3.Implies(y < 0, t <= 0)]
    if n == 'pow':
        x, y = t.arg(0), t.arg(1)
        return [z3.Implies(x > 0, t > 0), z3.Implies(y == 0, t == 1),
                z3.Implies(y == 1, t == x)]
    if n == 'softplus':
        return [t > 0]
    if n == 'SUM':
        lam, m = t.arg(0), t.arg(1)
        out = [z3.Implies(m <= 0, t == 0)]
        if z3.is_quantifier(lam):
            j = z3.Int('?ax%d' % lam.get_id())
            b = z3.substitute_vars(lam.body(), j)
            if getattr(c, 'in_sum', 0) < 2:
                c.in_sum = getattr(c, 'in_sum', 0) + 1
                try:
                    dom = z3.And(j >= 0, j < m)
                    if valid(c, z3.Implies(dom, b >= 0), quick=True):
                        out.append(t >= 0)
                    if valid(c, z3.Implies(dom, b > 0), quick=True):
                        out.append(z3.Implies(m > 0, t > 0))
                finally:
                    c.in_sum -= 1
        return out
    return []


# ---------------------------------------------------------------------------
def norm_eq(a, b, norm):
    t0 = time.time()
    try:
        pa, pb = norm.nf(as_real(a)), norm.nf(as_real(b))
        if pa == pb:
            return True
        return poly.is_zero(poly.p_add(pa, pb, Fraction(-1)))
    except (poly.TooBig, RecursionError):
        return False
    finally:
        STATS['nf_time'] += time.time() - t0


def nf_bool(e, norm):
    """True if the indicator polynomial of e is the constant 1"""
    t0 = time.time()
    try:
        p = norm.cond(e)
        return poly.is_const(p) == 1
    except (poly.TooBig, RecursionError):
        return False
    finally:
        STATS['nf_time'] += time.time() - t0


def make_norm(c):
    memo = {}

    def positive(p):
        """is the polynomial (an atom) known positive under the path?"""
        k = poly.key(p)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = True
        # all atoms trivially positive with positive coefficients?
        for m, cf in p.items():
            if cf <= 0:
                r = False
                break
            for a, e in m:
                if not atom_positive(c, a, e):
                    r = False
                    break
            if not r:
                break
        memo[k] = r
        return r
    return poly.Normalizer(positive)


def atom_positive(c, a, e):
    k = poly.akey(a)
    if k[0] in ('exp', 'num'):
        return True
    if k[0] == 'poly':
        return False
    if k[0] in ('var', 'ivar'):
        if k[1] == 'PI':
            return True
        s = RS if k[0] == 'var' else IS
        return c.known(z3.Const(k[1], s) > 0)
    pos = getattr(c, 'positive_funs', ())
    if k[0] == 'app' and k[1][0] in pos:
        return True
    return False


def find_ites(e, limit=200):
    """conditions of ite terms outside binders"""
    out, seen = [], set()
    bm = {}
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            if not has_bound(x.arg(0), bm):
                out.append(x.arg(0))
        st.extend(x.children())
    return out


def prove(c, name, goal, timeout=None, domain=None, hints=()):
    """Register one proof obligation and try to discharge it."""
    t0 = time.time()
    STATS['queries'] += 1
    if isinstance(goal, bool):
        st, be, detail = ('proved', 'ring', '') if goal else reach_false(c)
    else:
        e = as_bool(sym.to_z3(goal))
        try:
            if getattr(c, 'solver_first', False) and c.check(z3.Not(e), c.solver_first) == z3.unsat:
                STATS['z3'] += 1
                st, be, detail = 'proved', 'z3', ''
            else:
                st, be, detail = decide(c, e, timeout or Z3_TIMEOUT, hints)
        except Unsupported as exc:
            st, be, detail = 'undecided', 'none', str(exc)
    ob = Obligation(name, st, be, time.time() - t0, detail,
                    ''.join('T' if v else 'F' for v in c.trace))
    c.report.add(ob)
    return st == 'proved'


def reach_false(c):
    """the goal is false: is the path reachable?"""
    base = c.pc + sym.atom_axioms()
    s = z3.Solver()
    s.set('timeout', 3000)
    for x in base + c.facts + axioms(c, c.pc):
        s.add(x)
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', 'unreachable path'
    if r == z3.sat:
        m = s.model()
        w = {d.name(): str(m[d]) for d in m.decls() if d.arity() == 0}
        return 'refuted', 'z3', dict(list(w.items())[:30])
    w = refute_numeric(c, [], z3.BoolVal(False))
    if w is not None:
        return 'refuted', 'numeric', w
    return 'undecided', 'z3', 'false goal on a path whose feasibility is open'


def valid(c, e, quick=False):
    """is e implied by the path condition?  (helper; no obligation recorded)"""
    e = z3.simplify(e) if quick else e
    if z3.is_true(e):
        return True
    norm = make_norm(c)
    if nf_bool(e, norm):
        return True
    st, _, _ = decide(c, e, 1500 if quick else Z3_TIMEOUT, (), refute=False)
    return st == 'proved'


def strip_eq(e):
    if z3.is_eq(e) and z3.is_arith(e.arg(0)):
        return e.arg(0), e.arg(1)
    return None


def decide(c, e, timeout, hints=(), refute=True):
    # conjunctions are split
    e = expand_goal(e)
    if z3.is_and(e) and e.num_args() <= 40:
        be = 'ring'
        for x in e.children():
            st, b, d = decide(c, x, timeout, hints, refute)
            if st != 'proved':
                return st, b, d
            if b != 'ring':
                be = b
        return 'proved', be, ''
    if z3.is_true(e):
        return 'proved', 'ring', ''
    # universally quantified goals: fresh constant
    if z3.is_quantifier(e) and e.is_forall():
        vs = [z3.Const(c.fresh_name('sk_' + e.var_name(i)), e.var_sort(i)) for i in range(e.num_vars())]
        body = z3.substitute_vars(e.body(), *reversed(vs))
        return decide(c, body, timeout, hints, refute)
    if z3.is_implies(e):
        return decide_under(c, [e.arg(0)], e.arg(1), timeout, hints, refute)
    return decide_under(c, [], e, timeout, hints, refute)


def expand_goal(e):
    if z3.is_eq(e) and z3.is_bool(e.arg(0)):
        return e
    return e


def decide_under(c, hyps, goal, timeout, hints, refute):
    if z3.is_implies(goal):
        return decide_under(c, hyps + [goal.arg(0)], goal.arg(1), timeout, hints, refute)
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const(c.fresh_name('sk_' + goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        return decide_under(c, hyps, body, timeout, hints, refute)
    if z3.is_and(goal):
        be = 'ring'
        for x in goal.children():
            st, b, d = decide_under(c, hyps, x, timeout, hints, refute)
            if st != 'proved':
                return st, b, d
            be = b if b != 'ring' else be
        return 'proved', be, ''
    norm = make_norm(c)
    eq = strip_eq(goal)
    if eq is not None:
        if norm_eq(eq[0], eq[1], norm):
            STATS['nf'] += 1
            return 'proved', 'ring', ''
    elif nf_bool(goal, norm):
        STATS['nf'] += 1
        return 'proved', 'ring', ''
    if eq is not None and has_sum(eq[0], 1) or eq is not None and has_sum(eq[1], 1):
        # sums over a position that an inner condition fixes
        a2, b2 = collapse(c, hyps, eq[0]), collapse(c, hyps, eq[1])
        if norm_eq(a2, b2, norm):
            STATS['nf'] += 1
            return 'proved', 'ring', ''
    if eq is not None and (has_sum(eq[0], 1) or has_sum(eq[1], 1)):
        # case distinctions inside sums, brought to the top of the summand
        a2, b2 = lift(c, a2), lift(c, b2)
        if norm_eq(a2, b2, norm):
            STATS['nf'] += 1
            return 'proved', 'ring', ''
    if eq is not None and linear(goal, 800) and quick_unsat(c, hyps, goal):
        return 'proved', 'z3', ''
    # case split on ite conditions
    if eq is not None:
        r = split_eq(c, hyps, eq[0], eq[1], timeout, [0])
        if r:
            STATS['nf'] += 1
            return 'proved', 'ring', ''
    st = z3_prove(c, hyps, goal, timeout)
    if st == 'proved':
        return 'proved', 'z3', ''
    if eq is not None or z3.is_bool(goal):
        ax2 = sum_congruence(c, hyps, goal)
        if ax2:
            st2 = z3_prove(c, hyps + ax2, goal, timeout)
            if st2 == 'proved':
                return 'proved', 'z3', ''
    if not refute:
        return 'undecided', 'z3', ''
    w = refute_numeric(c, hyps, goal)
    if w is not None:
        return 'refuted', 'numeric', w
    if st == 'sat':
        return 'undecided', 'z3', 'z3 finds a model of the negated goal (over-approximated functions)'
    return 'undecided', 'z3', 'z3: %s' % st


def linear(e, limit):
    """linear arithmetic with case distinctions over plain symbols"""
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit or not z3.is_app(x):
            return False
        if z3.is_mul(x):
            if sum(1 for a in x.children() if not (z3.is_rational_value(a) or z3.is_int_value(a))) > 1:
                return False
        elif z3.is_div(x) or z3.is_idiv(x) or z3.is_mod(x) or x.decl().kind() == z3.Z3_OP_POWER:
            return False
        st.extend(x.children())
    return True


def quick_unsat(c, hyps, goal):
    s = z3.Solver()
    s.set('timeout', 200)
    for x in list(c.pc) + list(hyps):
        if not has_bound_vars(x):
            s.add(x)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def has_bound_vars(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def has_sum(e, n):
    return any(t.decl().name() == 'SUM' for t in ground_apps([e]))


def mentions(e, j):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if x.eq(j):
            return True
        st.extend(x.children())
    return False


def addends(e, sign=1):
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        return [p for x in e.children() for p in addends(x, sign)]
    if k == z3.Z3_OP_SUB:
        r = addends(e.arg(0), sign)
        for x in e.children()[1:]:
            r += addends(x, -sign)
        return r
    if k == z3.Z3_OP_UMINUS:
        return addends(e.arg(0), -sign)
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_rational_value(e.arg(0)):
        return [(s, e.arg(0) * x) for s, x in addends(e.arg(1), sign)]
    return [(sign, e)]


def is_zero_term(e):
    v = sym.const_num(e)
    return v is not None and v == 0


def collapse(c, hyps, e):
    """Sum over j of a term that is zero unless j = t (t free of j, within the
    range of j) is that term at t; also below an inner sum (the order of two
    finite sums is exchanged).  An equality of real sums."""
    memo = {}

    def in_range(t, n, hy):
        return z3_prove(c, hy, z3.And(t >= 0, t < n), 2000) == 'proved'

    def pick(cond, u, j, n, hy):
        conj = cond.children() if z3.is_and(cond) else [cond]
        for q, x in enumerate(conj):
            if z3.is_eq(x) and x.arg(0).sort() == IS:
                for t, v in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if v.eq(j) and not mentions(t, j) and in_range(t, n, hy):
                        rest = [z3.substitute(y, (j, t)) for y in conj[:q] + conj[q + 1:]]
                        u2 = z3.substitute(u, (j, t))
                        if not rest:
                            return u2
                        return z3.If(z3.And(*rest) if len(rest) > 1 else rest[0], u2, z3.RealVal(0))
        return None

    def scaled(f, x):
        return x if f is None else f * x

    def one(part, j, n, hy):
        """sum over j of part"""
        f = None
        if z3.is_app(part) and part.decl().kind() == z3.Z3_OP_MUL and part.num_args() == 2 and z3.is_rational_value(part.arg(0)):
            f, part = part.arg(0), part.arg(1)
        if z3.is_app(part) and part.decl().kind() == z3.Z3_OP_ITE and is_zero_term(part.arg(2)):
            r = pick(part.arg(0), part.arg(1), j, n, hy)
            if r is not None:
                return scaled(f, r)
        if z3.is_app(part) and part.decl().name() == 'SUM' and z3.is_quantifier(part.arg(0)) \
                and not mentions(part.arg(1), j) and mentions(part.arg(0), j):
            p = z3.Int(c.fresh_name('?cs'))
            body = z3.substitute_vars(part.arg(0).body(), p)
            hy2 = hy + [p >= 0, p < part.arg(1)]
            outs = []
            for s, x in addends(body):
                g = None
                y = x
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_MUL and y.num_args() == 2 and z3.is_rational_value(y.arg(0)):
                    g, y = y.arg(0), y.arg(1)
                r = None
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and is_zero_term(y.arg(2)):
                    r = pick(y.arg(0), y.arg(1), j, n, hy2)
                if r is None:
                    r = SUM(z3.Lambda([j], y), n)
                r = scaled(g, r)
                outs.append(r if s > 0 else -r)
            return scaled(f, SUM(z3.Lambda([p], z3.Sum(outs) if len(outs) > 1 else outs[0]), part.arg(1)))
        return scaled(f, SUM(z3.Lambda([j], part), n))

    def rec(x, hy):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        r = x
        if z3.is_app(x) and x.num_args():
            if x.decl().name() == 'SUM' and z3.is_quantifier(x.arg(0)):
                n = x.arg(1)
                j = z3.Int(c.fresh_name('?cs'))
                hy2 = hy + [j >= 0, j < n]
                body = rec(z3.substitute_vars(x.arg(0).body(), j), hy2)
                outs = []
                for s, part in addends(body):
                    t = one(part, j, n, hy2)
                    outs.append(t if s > 0 else -t)
                r = z3.Sum(outs) if len(outs) > 1 else outs[0]
            elif z3.is_arith(x):
                ch = x.children()
                nc = [rec(y, hy) if z3.is_arith(y) else y for y in ch]
                if any(not a.eq(b) for a, b in zip(ch, nc)):
                    r = x.decl()(*nc) if x.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else rebuild(x, nc)
        memo[k] = (x, r)
        return r
    try:
        return rec(e, list(hyps))
    except (RecursionError, z3.Z3Exception):
        return e


def tree(e, depth=0):
    """e as nested case distinctions with ite-free leaves (binders excluded)"""
    conds = find_ites(e, 40)
    if not conds or depth > 7:
        return e
    conds.sort(key=lambda x: (len(find_ites(x)), x.get_id()))
    q = conds[0]
    t = tree(simp_ite(z3.substitute(e, (q, z3.BoolVal(True)))), depth + 1)
    f = tree(simp_ite(z3.substitute(e, (q, z3.BoolVal(False)))), depth + 1)
    return t if t.eq(f) else z3.If(q, t, f)


def lift(c, e):
    memo = {}

    def rec(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        r = x
        if z3.is_app(x) and x.num_args() and z3.is_arith(x):
            if x.decl().name() == 'SUM' and z3.is_quantifier(x.arg(0)):
                j = z3.Int(c.fresh_name('?lf'))
                body = tree(rec(z3.substitute_vars(x.arg(0).body(), j)))
                r = SUM(z3.Lambda([j], body), x.arg(1))
            else:
                ch = x.children()
                nc = [rec(y) if z3.is_arith(y) else y for y in ch]
                if any(not a.eq(b) for a, b in zip(ch, nc)):
                    r = x.decl()(*nc) if x.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else rebuild(x, nc)
        memo[k] = (x, r)
        return r
    try:
        return rec(e)
    except (RecursionError, z3.Z3Exception):
        return e


def split_eq(c, hyps, a, b, timeout, steps):
    """prove a == b by splitting on the conditions of their ite terms"""
    s = z3.Solver()
    s.set('timeout', 500)
    for x in c.pc + hyps:
        s.add(x)
    for x in sym.atom_axioms():
        s.add(x)

    lits = []

    def rec(a, b, depth):
        steps[0] += 1
        if steps[0] > 260:
            return False
        norm = make_norm(c)
        if norm_eq(a, b, norm):
            return True
        conds = find_ites(z3.And(as_real(a) == 0, as_real(b) == 0))
        conds = [x for x in conds if not (z3.is_true(x) or z3.is_false(x))]
        if not conds:
            if s.check() == z3.unsat:
                return True
            # boundary cases: a split literal that holds with equality
            for l, r in lits:
                for u, v in ((l, r), (r, l)):
                    if not (z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                        continue
                    if u.sort() != v.sort():
                        continue
                    s.push()
                    s.add(u != v)
                    forced = s.check() == z3.unsat
                    s.pop()
                    if forced and norm_eq(z3.substitute(a, (u, v)), z3.substitute(b, (u, v)), norm):
                        return True
            return False
        # innermost first: a condition without nested ite
        conds.sort(key=lambda x: len(find_ites(x)))
        q = conds[0]
        nlit = len(lits)
        if q.num_args() == 2 and z3.is_arith(q.arg(0)):
            lits.append((q.arg(0), q.arg(1)))
        for val in (True, False):
            lit = q if val else z3.Not(q)
            s.push()
            s.add(lit)
            feas = s.check() != z3.unsat
            if feas:
                bv = z3.BoolVal(val)
                a2 = resolve(a, q, bv, s)
                b2 = resolve(b, q, bv, s)
                ok = rec(a2, b2, depth + 1)
                if not ok:
                    s.pop()
                    return False
            s.pop()
        del lits[nlit:]
        return True
    return rec(a, b, 0)


def resolve(e, q, bv, s):
    e = z3.substitute(e, (q, bv))
    e = z3.simplify(e, som=False, arith_lhs=False, push_ite_arith=False) if False else simp_ite(e)
    return e


def simp_ite(e, memo=None):
    """replace If(true,a,b) by a, recursively (no other rewriting)"""
    memo = {} if memo is None else memo

    def rec(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(x) or z3.is_var(x) or x.num_args() == 0:
            r = x
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            cnd = z3.simplify(rec(x.arg(0)))
            if z3.is_true(cnd):
                r = rec(x.arg(1))
            elif z3.is_false(cnd):
                r = rec(x.arg(2))
            else:
                r = z3.If(cnd, rec(x.arg(1)), rec(x.arg(2)))
        else:
            ch = x.children()
            nc = [rec(y) for y in ch]
            if all(p.eq(q) for p, q in zip(ch, nc)):
                r = x
            else:
                try:
                    r = x.decl()(*nc) if x.decl().kind() not in (
                        z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else rebuild(x, nc)
                except z3.Z3Exception:
                    r = x
        memo[i] = (x, r)
        return r
    return rec(e)


def rebuild(x, nc):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(nc)
    if k == z3.Z3_OP_MUL:
        return z3.Product(nc)
    if k == z3.Z3_OP_AND:
        return z3.And(nc)
    return z3.Or(nc)


def z3_prove(c, hyps, goal, timeout):
    t0 = time.time()
    try:
        # the axioms of the goal's own functions, with everything nonlinear
        # abstracted, settle many bounds at once
        if linear_abstract(axioms(c, [goal]) + [h for h in hyps + c.pc if size_le(h, 60)], goal) == z3.unsat:
            STATS['z3'] += 1
            return 'proved'
        base = c.pc + hyps + [goal]
        ax = axioms(c, base) + sym.atom_axioms()
        s = z3.Solver()
        s.set('timeout', timeout)
        for x in c.pc + hyps + c.facts + ax:
            s.add(x)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            STATS['z3'] += 1
            return 'proved'
        if r == z3.sat:
            return 'sat'
        # abstract function applications and use nlsat
        if nlsat(c.pc + hyps + ax, goal, timeout) == z3.unsat:
            STATS['z3'] += 1
            return 'proved'
        return s.reason_unknown()
    finally:
        STATS['z3_time'] += time.time() - t0


def size_le(e, n):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > n:
            return False
        st.extend(x.children())
    return True


def linear_abstract(hyps, goal, timeout=1500):
    """products, quotients and applications of terms become constants (equal
    normal forms share one); squares are non-negative.  Sound for unsat."""
    memo, tbl, facts = {}, {}, []

    def fresh(x, square=False):
        k = x.sexpr()
        if k not in tbl:
            tbl[k] = z3.Const('lin!%d' % len(tbl), x.sort())
            if square:
                facts.append(tbl[k] >= 0)
        return tbl[k]

    def rec(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(x) or z3.is_var(x):
            raise Unsupported('quantifier')
        k = x.decl().kind()
        if x.num_args() == 0:
            r = x
        elif k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_TO_INT, z3.Z3_OP_POWER):
            if x.sort() not in (RS, IS, BS):
                raise Unsupported('sort')
            sq = k == z3.Z3_OP_POWER and sym.const_num(x.arg(1)) in (2, 4)
            r = fresh(x, sq)
        elif k == z3.Z3_OP_MUL and sum(sym.const_num(y) is None for y in x.children()) > 1:
            ch = x.children()
            neg = len(ch) % 2 == 0 and all(ch[j].eq(ch[j + len(ch) // 2]) for j in range(len(ch) // 2))
            r = fresh(x, neg)
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and sym.const_num(x.arg(1)) is None:
            r = fresh(x)
        else:
            ch = x.children()
            nc = [rec(y) for y in ch]
            if all(p.eq(q) for p, q in zip(ch, nc)):
                r = x
            else:
                r = rebuild(x, nc) if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else x.decl()(*nc)
        memo[i] = (x, r)
        return r
    s = z3.Solver()
    s.set('timeout', timeout)
    try:
        g = rec(goal)
        for h in hyps:
            try:
                s.add(rec(h))
            except Unsupported:
                continue
        for f in facts:
            s.add(f)
        s.add(z3.Not(g))
        return s.check()
    except (Unsupported, z3.Z3Exception):
        return z3.unknown


def nlsat(hyps, goal, timeout):
    """Ackermann-free abstraction: every uninterpreted application becomes a
    fresh constant (sound for unsat)."""
    memo = {}
    tbl = {}

    def rec(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(x) or z3.is_var(x):
            raise Unsupported('quantifier')
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() in (
                z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_TO_INT):
            if x.sort() == RS or x.sort() == IS or x.sort() == BS:
                k = x.sexpr()
                if k not in tbl:
                    tbl[k] = z3.Const('abs!%d' % len(tbl), x.sort())
                r = tbl[k]
            else:
                raise Unsupported('sort')
        elif x.num_args() == 0:
            r = x
        else:
            ch = x.children()
            nc = [rec(y) for y in ch]
            if all(p.eq(q) for p, q in zip(ch, nc)):
                r = x
            else:
                k = x.decl().kind()
                r = rebuild(x, nc) if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else x.decl()(*nc)
        memo[i] = (x, r)
        return r
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', timeout)
    try:
        for h in hyps:
            try:
                s.add(rec(h))
            except Unsupported:
                continue
        s.add(z3.Not(rec(goal)))
        return s.check()
    except (Unsupported, z3.Z3Exception):
        return z3.unknown


def sum_congruence(c, hyps, goal):
    """equalities between reductions whose bodies are provably equal"""
    apps = [t for t in ground_apps([goal]) if t.decl().name() in ('SUM', 'MAXR', 'MINR', 'PRODR')]
    out = []
    depth = getattr(c, 'sc_depth', 0)
    if depth > 2 or len(apps) > 12:
        return out
    c.sc_depth = depth + 1
    try:
        for i in range(len(apps)):
            for j in range(i + 1, len(apps)):
                a, b = apps[i], apps[j]
                if a.decl().name() != b.decl().name():
                    continue
                la, lb = a.arg(0), b.arg(0)
                if not (z3.is_quantifier(la) and z3.is_quantifier(lb)):
                    continue
                if not a.arg(1).eq(b.arg(1)):
                    if not c.known(a.arg(1) == b.arg(1)):
                        continue
                k = z3.Int(c.fresh_name('?cong'))
                ba = z3.substitute_vars(la.body(), k)
                bb = z3.substitute_vars(lb.body(), k)
                st, _, _ = decide_under(c, hyps + [k >= 0, k < a.arg(1)], ba == bb, 3000, (), False)
                if st == 'proved':
                    out.append(a == b)
    finally:
        c.sc_depth = depth
    return out


# --- numeric refutation -------------------------------------------------------
class NumUndef(Exception):
    pass


class Interp:
    """a random concrete interpretation of the free symbols"""

    def __init__(self, seed, scale, model=None):
        self.seed, self.scale, self.model = seed, scale, model
        self.vals = {}

    def const(self, name, sort):
        k = (name,)
        if k not in self.vals:
            r = random.Random('%s|%s|%s' % (self.seed, name, self.scale))
            self.vals[k] = self.draw(r, sort, name)
        return self.vals[k]

    def draw(self, r, sort, name=''):
        if name == 'PI':
            return math.pi
        if name == 'INFINITY':
            return 1e301
        if name == 'NAN':
            return float('nan')
        if sort == BS:
            return r.random() < 0.5
        if sort == IS:
            return r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        if sort == sym.ATOM:
            return 'atom%d' % r.choice([0, 1, 2])
        q = r.random()
        if q < 0.15:
            return r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
        if q < 0.6:
            return r.uniform(0, 1) * self.scale
        return r.uniform(-1, 1) * self.scale

    def fun(self, name, args, sort):
        k = (name,) + tuple(args)
        if k not in self.vals:
            r = random.Random('%s|%s' % (self.seed, k))
            self.vals[k] = self.draw(r, sort)
        return self.vals[k]


def num_eval(e, I, env=None, memo=None):
    env = env or ()
    memo = {} if memo is None else memo

    def rec(x, env):
        key = (x.get_id(), env)
        if key in memo:
            return memo[key][1]
        r = ev(x, env)
        memo[key] = (x, r)
        return r

    def ev(x, env):
        if z3.is_quantifier(x):
            if x.is_lambda():
                return ('lam', x, env)
            n = x.num_vars()
            rngs = [range(-1, 7)] * n
            import itertools
            if n > 2 or any(x.var_sort(i) != IS for i in range(n)):
                raise NumUndef()
            for tup in itertools.product(*rngs):
                v = rec(x.body(), env + tuple(tup))
                if x.is_forall() and not v:
                    return False
                if not x.is_forall() and v:
                    return True
            return x.is_forall()
        if z3.is_var(x):
            i = z3.get_var_index(x)
            return env[len(env) - 1 - i]
        c = sym.const_num(x)
        if c is not None:
            return int(c) if x.sort() == IS else float(c)
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            return rec(x.arg(1), env) if rec(x.arg(0), env) else rec(x.arg(2), env)
        if k == z3.Z3_OP_AND:
            return all(rec(y, env) for y in x.children())
        if k == z3.Z3_OP_OR:
            return any(rec(y, env) for y in x.children())
        if k == z3.Z3_OP_IMPLIES:
            return (not rec(x.arg(0), env)) or rec(x.arg(1), env)
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            return I.const(x.decl().name(), x.sort())
        if k == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ('SUM', 'MAXR', 'MINR', 'PRODR'):
            n = rec(x.arg(1), env)
            lam = rec(x.arg(0), env)
            if n > 200:
                raise NumUndef()
            vs = [rec(lam[1].body(), lam[2] + (j,)) for j in range(int(n))]
            nm = x.decl().name()
            if nm == 'SUM':
                return float(sum(vs))
            if nm == 'PRODR':
                p = 1.0
                for v in vs:
                    p *= v
                return p
            if not vs:
                raise NumUndef()
            return max(vs) if nm == 'MAXR' else min(vs)
        a = [rec(y, env) for y in x.children()]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_XOR:
            return bool(a[0]) != bool(a[1])
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for y in a[1:]:
                r -= y
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for y in a[1:]:
                r *= y
            return r
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise NumUndef()
            return a[0] / a[1]
        if k == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise NumUndef()
            return a[0] // a[1]
        if k == z3.Z3_OP_MOD:
            if a[1] == 0:
                raise NumUndef()
            return a[0] % a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            if z3.is_arith(x.arg(0)):
                return close(a[0], a[1])
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            f = NUMFUN.get(n)
            if f is not None:
                try:
                    return f(*a)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise NumUndef()
            if any(isinstance(y, tuple) for y in a):
                raise NumUndef()
            return I.fun(n, [round(y, 9) if isinstance(y, float) else y for y in a], x.sort())
        raise NumUndef()
    return rec(e, env)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a == b:
        return True
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def _erfinv(x):
    if not -1 < x < 1:
        raise ValueError
    import scipy.special
    return float(scipy.special.erfinv(x))


NUMFUN = {
    'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'sin': math.sin,
    'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'erf': math.erf,
    'lgamma': math.lgamma, 'erfinv': _erfinv, 'arccos': math.acos, 'arcsin': math.asin,
    'arctan': math.atan, 'arctan2': math.atan2, 'pow': lambda a, b: float(a) ** b,
}


def refute_numeric(c, hyps, goal, tries=120):
    """look for a concrete interpretation with the path true and goal false"""
    pcs = c.pc + hyps + [f for f in c.facts]
    t0 = time.time()
    models = []
    for k in range(tries):
        if time.time() - t0 > 6:
            break
        scale = [1.0, 3.0, 10.0, 100.0, 0.3][k % 5]
        I = Interp(k, scale)
        if k % 4 == 1:
            # seed the constants with a z3 model of the path
            if not models:
                s = z3.Solver()
                s.set('timeout', 1000)
                for x in c.pc + hyps:
                    s.add(x)
                models.append(s.model() if s.check() == z3.sat else None)
            if models[0] is not None:
                m = models[0]
                for d in m.decls():
                    if d.arity() == 0:
                        if not z3.is_expr(m[d]):
                            continue
                        v = sym.const_num(m[d])
                        if v is not None and d.name() not in ('PI', 'INFINITY', 'NAN'):
                            I.vals[(d.name(),)] = int(v) if d.range() == IS else float(v)
                        elif z3.is_true(m[d]) or z3.is_false(m[d]):
                            I.vals[(d.name(),)] = z3.is_true(m[d])
        memo = {}
        try:
            ok = True
            for x in pcs:
                if not repair(x, I, memo):
                    ok = False
                    break
            if not ok:
                continue
            memo = {}
            if all(num_eval(x, I, memo=memo) for x in pcs) and not num_eval(goal, I, memo=memo):
                w = {('%s' % (kk[0] if len(kk) == 1 else '%s%s' % (kk[0], list(kk[1:])))): vv
                     for kk, vv in list(I.vals.items())[:40]
                     if kk[0] not in ('PI', 'INFINITY', 'NAN')}
                return w
        except (NumUndef, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
            continue
    return None


def repair(x, I, memo):
    """evaluate hypothesis x; equalities/inequalities over a plain constant or
    application may be repaired by moving that value."""
    if z3.is_quantifier(x):
        if not x.is_forall() or x.num_vars() > 3 or any(x.var_sort(i) != IS for i in range(x.num_vars())):
            return num_eval(x, I, memo=memo)
        import itertools
        n = x.num_vars()
        for tup in itertools.product(range(-1, 7) if n < 3 else range(0, 4), repeat=n):
            b = z3.substitute_vars(x.body(), *[z3.IntVal(t) for t in reversed(tup)])
            if not repair(b, I, memo):
                return False
        return True
    if num_eval(x, I, memo=memo):
        return True
    if z3.is_implies(x):
        if not num_eval(x.arg(0), I, memo=memo):
            return True
        return repair(x.arg(1), I, memo)
    neg = False
    y = x
    if z3.is_not(y):
        neg, y = True, y.arg(0)
    if z3.is_and(y) and not neg:
        return all(repair(z, I, memo) for z in y.children())
    if y.num_args() != 2 or not z3.is_arith(y.arg(0)):
        if y.num_args() == 0 and z3.is_bool(y):
            I.vals[(y.decl().name(),)] = not neg
            memo.clear()
            return True
        return False
    for t, o, side in ((y.arg(0), y.arg(1), 0), (y.arg(1), y.arg(0), 1)):
        t = t.arg(0) if z3.is_app_of(t, z3.Z3_OP_TO_REAL) else t
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and t.decl().name() not in NUMFUN and t.decl().name() not in ('PI', 'SUM', 'MAXR', 'MINR')):
            continue
        if t.num_args() == 0:
            key = (t.decl().name(),)
        else:
            args = [num_eval(z, I, memo=memo) for z in t.children()]
            key = (t.decl().name(),) + tuple(round(z, 9) if isinstance(z, float) else z for z in args)
        v = num_eval(o, I, memo=memo)
        r = random.Random('%s|%s|rep' % (I.seed, key))
        step = r.choice([1, 1, 2]) if t.sort() == IS else r.uniform(0.01, 1) * I.scale
        cands = [v, v + step, v - step]
        for cv in cands:
            if t.sort() == IS:
                if cv != int(cv):
                    continue
                cv = int(cv)
            I.vals[key] = cv
            memo.clear()
            if num_eval(x, I, memo=memo):
                return True
    return False
