"""Loop rule for iterations over sequences of symbolic length.

The body is executed for an arbitrary iteration k from an arbitrary (havocked)
state.  Every location the body changes must evolve according to one of the
closed forms

    sum         v' = v + e(k)            v_n = v_0 + sum_{j<n} e(j)
    product     v' = v * e(k)            v_n = v_0 * prod_{j<n} e(j)
    conjunction v' = v and e(k)          v_n = v_0 and forall j<n. e(j)
    disjunction v' = v or e(k)           v_n = v_0 or exists j<n. e(j)
    extremum    v' = max/min(v, e(k))
    last        v' = e(k)                v_n = e(n-1)
    append      v' = v ++ [e(k)]         v_n = v_0 ++ [e(j) | j<n]

each of which is an inductive invariant whose preservation is proved (the
template equation is discharged for arbitrary v and k) before it is used.
Early exits (return / break / raise) are handled by "first exit at k".  When a
location fits no template the loop is outside the fragment (Unsupported).
"""
import builtins
import z3
from . import sym
from .sym import S, Unsupported, Infeasible, ctx, to_z3, IS, RS, BS, as_bool, as_real, as_arith
from .tensor import (T, as_t, iz, ix, dim_expr, dim, memo, sum_e, forall_e, exists_e,
                     ext_e, fresh_tensor, dim_same)
from . import seq as seqmod


class Sentinel:
    """content of a list at the start of an arbitrary iteration"""

    def _bad(self, *a, **k):
        raise Unsupported('loop body reads a list it also appends to')
    __eq__ = __ne__ = __add__ = __radd__ = __sub__ = __mul__ = __getitem__ = _bad
    __bool__ = __len__ = __iter__ = __call__ = __lt__ = __gt__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, k):
        raise Unsupported('loop body reads a list it also appends to')


class SList(seqmod.SSeq):
    """A mutable list of symbolic length."""

    def __init__(self, s):
        seqmod.SSeq.__init__(self, s.n, s._at)

    def append(self, x):
        s = seqmod.seq_concat(seqmod.SSeq(self.n, self._at), [x])
        self.n, self._at = s.n, s._at

    def extend(self, xs):
        s = seqmod.seq_concat(seqmod.SSeq(self.n, self._at), xs)
        self.n, self._at = s.n, s._at

    def __iadd__(self, xs):
        self.extend(xs)
        return self


def is_obj(x):
    m = getattr(type(x), '__module__', '')
    return isinstance(m, str) and m.startswith('egenerator') and hasattr(x, '__dict__')


class Heap:
    def __init__(self, get, set_, names):
        self.get, self.set_, self.names = get, set_, set(names)
        self.roots = dict(get())
        self.cont = {}
        st = list(self.roots.values())
        while st:
            x = st.pop()
            if id(x) in self.cont:
                continue
            if isinstance(x, builtins.list):
                self.cont[id(x)] = (x, 'list', builtins.list(x))
                st.extend(x)
            elif isinstance(x, builtins.dict):
                self.cont[id(x)] = (x, 'dict', builtins.dict(x))
                st.extend(x.values())
            elif isinstance(x, builtins.set):
                self.cont[id(x)] = (x, 'set', builtins.set(x))
            elif isinstance(x, builtins.tuple):
                st.extend(x)
            elif isinstance(x, SList):
                self.cont[id(x)] = (x, 'slist', (x.n, x._at))
            elif isinstance(x, T):
                if x._vw is not None:
                    st.append(x.base)
                elif x.np_like:
                    self.cont[id(x)] = (x, 'T', x._f)
            elif is_obj(x):
                self.cont[id(x)] = (x, 'obj', builtins.dict(vars(x)))
                st.extend(vars(x).values())

    def restore(self):
        for x, kind, old in self.cont.values():
            if kind == 'list':
                x[:] = old
            elif kind == 'dict':
                x.clear()
                x.update(old)
            elif kind == 'set':
                x.clear()
                x.update(old)
            elif kind == 'slist':
                x.n, x._at = old
            elif kind == 'T':
                x._fn = old
            else:
                vars(x).clear()
                vars(x).update(old)
        self.set_({k: v for k, v in self.roots.items() if k in self.names})

    def changes(self):
        """{location: (old, new)}"""
        out = {}
        now = self.get()
        for k in self.names:
            if k in self.roots:
                if now.get(k, MISSING) is not self.roots[k]:
                    out[('var', k)] = (self.roots[k], now.get(k, MISSING))
            elif k in now:
                out[('var', k)] = (MISSING, now[k])
        for i, (x, kind, old) in self.cont.items():
            if kind == 'list':
                if len(x) != len(old) or any(a is not b for a, b in zip(x, old)):
                    out[('list', i)] = (old, builtins.list(x))
            elif kind == 'dict' or kind == 'obj':
                cur = x if kind == 'dict' else vars(x)
                for k in set(cur) | set(old):
                    if cur.get(k, MISSING) is not old.get(k, MISSING):
                        out[(kind, i, k)] = (old.get(k, MISSING), cur.get(k, MISSING))
            elif kind == 'set':
                if x != old:
                    raise Unsupported('loop body changes a set')
            elif kind == 'slist':
                if x.n is not old[0] or x._at is not old[1]:
                    raise Unsupported('loop body changes a symbolic list')
            elif kind == 'T':
                if x._fn is not old:
                    out[('T', i)] = (old, x._fn)
        return out

    def put(self, loc, val):
        if loc[0] == 'var':
            self.set_({loc[1]: val})
        elif loc[0] == 'list':
            self.cont[loc[1]][0][:] = val
        elif loc[0] == 'dict':
            if val is MISSING:
                self.cont[loc[1]][0].pop(loc[2], None)
            else:
                self.cont[loc[1]][0][loc[2]] = val
        elif loc[0] == 'obj':
            vars(self.cont[loc[1]][0])[loc[2]] = val
        elif loc[0] == 'T':
            self.cont[loc[1]][0]._fn = val


MISSING = type('Missing', (), {'__repr__': lambda s: '<unbound>'})()


class Peel(Exception):
    pass


def explore_body(c, heap, body, elem, havoc, k):
    """all paths of one generic iteration: [(conds, outcome, changes, pcfacts)]"""
    saved = (c.prefix, c.trace, c.alternatives, c.pc, dict(c.counter), c.facts)
    base_pc = list(c.pc)
    results = []
    stack = [[]]
    fresh_seen = set()
    try:
        while stack:
            c.prefix = stack.pop()
            c.trace, c.alternatives = [], []
            c.pc = list(base_pc)
            c.facts = list(saved[5])
            c.counter = dict(saved[4])
            c.solver.push()
            heap.restore()
            for loc, v in havoc.items():
                heap.put(loc, v() if callable(v) else v)
            try:
                try:
                    out = body(elem)
                except (Unsupported, Infeasible):
                    raise
                except Exception as exc:   # an exception of the code under test
                    out = ('exc', exc)
                for n, v in c.counter.items():
                    if saved[4].get(n, 0) != v:
                        fresh_seen.add(n)
                if len(c.facts) != len(saved[5]):
                    raise Unsupported('loop body introduces facts')
                results.append((c.pc[len(base_pc):], out, heap.changes()))
            except Infeasible:
                pass
            finally:
                c.solver.pop()
            stack.extend(c.alternatives)
            if len(results) > 200:
                raise Unsupported('too many paths in a loop body')
    finally:
        c.prefix, c.trace, c.alternatives, c.pc = saved[0], saved[1], saved[2], saved[3]
        c.counter, c.facts = saved[4], saved[5]
        heap.restore()
    # bound indices and havocked states of inner loops are eliminated there
    fresh_seen = {n for n in fresh_seen if not (n == '?k' or n == 'hv' or n.startswith('hv_') or n.startswith('hvT'))}
    if fresh_seen:
        raise Unsupported('loop body creates fresh symbols: %s' % sorted(fresh_seen))
    return results


def occurs(e, syms):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in syms:
                return True
            st.extend(x.children())
    return False


def kind_of(v):
    if isinstance(v, (bool,)):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, float):
        return 'f'
    if isinstance(v, S):
        return {RS: 'f', IS: 'i', BS: 'b'}.get(v.e.sort(), 'a')
    if isinstance(v, T):
        return 'T'
    return None


def symbolic_for(s, body, get, set_, names, exc=True):
    c = ctx()
    n = s.n
    off = 0
    for peel in range(3):
        # no iteration left?
        if c.branch(to_z3(n) <= off):
            return None
        try:
            return accelerate(c, s, n, off, body, get, set_, names, exc)
        except Peel:
            if peel == 2 or not exc:
                raise Unsupported('loop state does not stabilise')
            r = body(s.at(off))
            if r is not None:
                return r
            off += 1


def accelerate(c, s, n, off, body, get, set_, names, exc=True):
    k = z3.Int(c.fresh_name('?k'))
    nz = to_z3(n)
    dom = z3.And(k >= off, k < nz)
    c.solver.push()
    pc0 = list(c.pc)
    c.pc.append(dom)
    c.solver.add(dom)
    try:
        heap = Heap(get, set_, names)
        havoc, hsyms, kinds = {}, {}, {}
        elem = s.at(k)
        elem_parts = set()
        for rnd in range(8):
            results = explore_body(c, heap, body, elem, havoc, k)
            new = {}
            for conds, out, ch in results:
                if out is not None and out[0] in ('ret', 'exc', 'brk'):
                    continue
                for loc, (old, val) in ch.items():
                    if loc not in havoc:
                        new.setdefault(loc, (old, []))[1].append(val)
            if not new:
                break
            for loc, (old, vals) in new.items():
                make_havoc(c, heap, loc, old, vals, havoc, hsyms, kinds)
        else:
            raise Unsupported('loop state does not stabilise')
        # transitions
        normal = [r for r in results if r[1] is None]
        exits = [r for r in results if r[1] is not None]
        if not exc and any(r[1][0] == 'exc' for r in exits):
            raise Unsupported('exception in a long loop')
        allsyms = set()
        for loc in havoc:
            allsyms |= hsyms.get(loc, set())
        forms = {}
        pending = []
        for loc in havoc:
            if kinds[loc] == 'dead':
                continue
            pending.append(loc)
        for loc in pending:
            forms[loc] = closed_form(c, heap, loc, kinds[loc], hsyms, allsyms, normal, k, off, nz, dom)
        nonexit = None
        if exits:
            if not normal:
                nonexit = z3.BoolVal(False)
            else:
                nonexit = z3.Or(*[z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in normal])
            for loc in pending:
                sub = forms[loc].get('at_scalar')
                nm = forms[loc].get('sym')
                if nm is not None and occurs(nonexit, {nm.decl().name()}):
                    nonexit = z3.substitute(nonexit, (nm, to_z3(sub(k))))
            if occurs(nonexit, allsyms):
                raise Unsupported('exit condition depends on the loop state')
    finally:
        c.solver.pop()
        c.pc = pc0

    def set_state(upto):
        """state after iterations off..upto-1"""
        for loc in pending:
            forms[loc]['apply'](upto)
        for loc in havoc:
            if kinds[loc] == 'dead':
                pass

    if not exits:
        heap_after(c, s, heap, pending, forms, havoc, kinds, nz, body, off)
        return None
    j = z3.Int('?j')
    if c.branch(z3.Bool(c.fresh_name('loop_exits_early'))):
        ke = c.fresh('exit_k', IS)
        c.assume(S(z3.And(ke >= off, ke < nz)))
        c.assume_fact(z3.ForAll([j], z3.Implies(z3.And(j >= off, j < ke), z3.substitute(nonexit, (k, j)))))
        # instances the solver would otherwise have to guess
        c.assume(S(z3.Implies(ke > off, z3.substitute(nonexit, (k, ke - 1)))))
        c.assume(S(z3.Implies(ke > off, z3.substitute(nonexit, (k, iz(off))))))
        if pending:
            if c.branch(ke == off):
                pass
            else:
                for loc in pending:
                    forms[loc]['apply'](ke)
        r = body(s.at(ke))
        if r is None:
            raise Infeasible()
        return r
    fact = z3.ForAll([j], z3.Implies(z3.And(j >= off, j < nz), z3.substitute(nonexit, (k, j))))
    c.assume_fact(fact)
    inst = z3.simplify(z3.substitute(nonexit, (k, iz(off))))
    if z3.is_false(inst) or (z3.is_false(z3.simplify(nonexit))):
        raise Infeasible()
    c.assume(S(inst))
    c.assume(S(z3.substitute(nonexit, (k, nz - 1))))
    heap_after(c, s, heap, pending, forms, havoc, kinds, nz, body, off)
    return None


def heap_after(c, s, heap, pending, forms, havoc, kinds, nz, body, off):
    for loc in pending:
        forms[loc]['apply'](nz)


def make_havoc(c, heap, loc, old, vals, havoc, hsyms, kinds):
    v0 = old
    if loc[0] == 'list':
        havoc[loc] = lambda: [Sentinel()]
        kinds[loc] = 'list'
        hsyms[loc] = set()
        return
    if loc[0] == 'T':
        x = heap.cont[loc[1]][0]
        ft = fresh_tensor('hv_' + str(loc[1] % 9973), x.shape_, x.sort())
        havoc[loc] = lambda: ft._fn
        kinds[loc] = 'arr'
        hsyms[loc] = {ft.name}
        forms_src = ft
        havoc[loc].__dict__['ft'] = ft
        return
    if v0 is MISSING or v0 is None and all(v is not None for v in vals):
        # a temporary of the body (assigned before it is read), or state that
        # only exists after the first iteration
        if v0 is None:
            raise Peel()
        havoc[loc] = lambda: MISSING_VALUE
        kinds[loc] = 'temp'
        hsyms[loc] = set()
        return
    ks = {kind_of(v) for v in vals} | {kind_of(v0)}
    if ks <= {'i', 'f', 'b'}:
        # numeric kinds join
        srt = RS if 'f' in ks else IS if 'i' in ks else BS
        if 'b' in ks and len(ks) > 1:
            raise Peel()
        h = c.fresh('hv', srt)
        # the symbol must not be seen as created by the body
        havoc[loc] = S(h)
        kinds[loc] = 'num'
        hsyms[loc] = {h.decl().name()}
        return
    if 'T' in ks and ks <= {'T', 'f', 'i'}:
        shapes = [v.shape_ for v in vals if isinstance(v, T)]
        t0 = v0 if isinstance(v0, T) else None
        if t0 is None:
            raise Peel()
        for v in vals:
            if not isinstance(v, T) or len(v.shape_) != len(t0.shape_) or any(
                    dim_same(a, b) is not True for a, b in zip(v.shape_, t0.shape_)):
                raise Peel()
        srt = RS if any(v.kind() == 'f' for v in vals + [t0]) else t0.sort()
        ft = fresh_tensor('hvT', t0.shape_, srt, np_like=t0.np_like)
        havoc[loc] = ft
        kinds[loc] = 'tensor'
        hsyms[loc] = {ft.name}
        return
    # anything else: only allowed as a temporary
    havoc[loc] = lambda: MISSING_VALUE
    kinds[loc] = 'temp'
    hsyms[loc] = set()


class _MV(Sentinel):
    def __repr__(self):
        return '<loop temporary>'


MISSING_VALUE = _MV()


def merged(normal, f):
    """ite over the body paths of f(changes)"""
    r = None
    for conds, out, ch in reversed(normal):
        v = f(ch)
        cnd = z3.And(*conds) if conds else z3.BoolVal(True)
        r = v if r is None else sym.e_if(cnd, v, r)
    return r


def closed_form(c, heap, loc, kind, hsyms, allsyms, normal, k, off, nz, dom):
    others = set()
    for l, sset in hsyms.items():
        if l != loc:
            others |= sset
    mine = hsyms[loc]
    if not normal:
        return {'apply': lambda upto: None}
    if kind == 'num':
        h = None
        for conds, out, ch in normal:
            pass
        hname = next(iter(mine))

        def cur(ch):
            if loc in ch:
                v = ch[loc][1]
                return to_z3(v)
            return hconst
        # value 0 of the location
        v0 = heap_value(heap, loc)
        z0 = to_z3(v0)
        srt = z0.sort()
        # the havoc symbol
        hconst = find_const(normal, hname, loc, z0)
        if hconst is None:
            return {'apply': lambda upto: None}
        e = merged(normal, cur)
        if hconst.sort() == RS:
            e = as_real(e)
        f = template(c, e, hconst, others, dom)

        def value(upto):
            return eval_template(f, to_z3(v0), k, off, upto)

        return {'apply': lambda upto: heap.put(loc, sym.wrap(value(upto))),
                'at_scalar': lambda kk: value(kk), 'sym': hconst}
    if kind in ('tensor', 'arr'):
        name = next(iter(mine))
        v0 = heap_value(heap, loc)
        shape = (v0.shape_ if kind == 'tensor' else heap.cont[loc[1]][0].shape_)
        fn0 = v0._fn if kind == 'tensor' else v0
        idx = [z3.IntVal(0) if isinstance(d, int) and d == 1 else z3.Int('?t%d' % i) for i, d in enumerate(shape)]
        ranges = [z3.And(i >= 0, i < iz(dim_expr(d))) for i, d in zip(idx, shape)]
        hv = None

        def cur(ch):
            if loc in ch:
                nv = ch[loc][1]
                f = nv._fn if kind == 'tensor' else nv
                e = f(*idx)
                return e if z3.is_expr(e) else to_z3(e)
            return None
        # the havoc application at idx
        srt = None
        vals = [cur(ch) for _, _, ch in normal]
        some = [v for v in vals if v is not None][0]
        app = find_app(some, name)
        srt = app.sort() if app is not None else as_real(some).sort()
        fdecl = z3.Function(name, *([IS] * len(shape)), srt) if shape else None
        hv = fdecl(*idx) if shape else z3.Const(name, srt)
        e = merged(normal, lambda ch: hv if cur(ch) is None else cur(ch))
        if srt == RS:
            e = as_real(e)
        place = z3.Const('?place', srt)
        e1 = z3.substitute(e, (hv, place))
        if occurs(e1, {name}):
            raise Unsupported('array element depends on other elements of the loop state')
        row = row_store(e1, place, idx, k, others)
        f = None if row else template(c, e1, place, others, z3.And(dom, *ranges))

        def apply(upto):
            def fn(*ii):
                if row:
                    p, w = row
                    w2 = z3.substitute(w, *[(a, iz(b)) for a, b in zip(idx, ii) if not z3.is_int_value(a)])
                    b0 = fn0(*ii)
                    b0 = b0 if z3.is_expr(b0) else to_z3(b0)
                    w2 = z3.substitute(w2, (place, as_real(b0) if srt == RS else b0))
                    a, b = sym.pair(w2, b0)
                    return sym.e_if(z3.simplify(z3.And(iz(ii[p]) >= off, iz(ii[p]) < iz(upto))), a, b)
                f2 = {kk: (z3.substitute(vv, *[(a, iz(b)) for a, b in zip(idx, ii) if not z3.is_int_value(a)]) if z3.is_expr(vv) else vv)
                      for kk, vv in f.items()}
                b0 = fn0(*ii)
                b0 = b0 if z3.is_expr(b0) else to_z3(b0)
                return eval_template(f2, b0, k, off, upto)
            if kind == 'tensor':
                heap.put(loc, T(shape, memo(fn), v0.dtype_, v0.np_like))
            else:
                heap.put(loc, memo(fn))
        return {'apply': apply}
    if kind == 'list':
        items = None
        for conds, out, ch in normal:
            new = ch[loc][1] if loc in ch else None
            if new is None or not new or not isinstance(new[0], Sentinel) or any(isinstance(x, Sentinel) for x in new[1:]):
                raise Unsupported('loop body changes a list other than by appending')
            its = new[1:]
            if items is not None and len(items) != len(its):
                raise Unsupported('loop body appends conditionally')
            items = its
        m = len(items)
        merged_items = []
        for q in range(m):
            v = None
            for conds, out, ch in reversed(normal):
                x = ch[loc][1][1 + q]
                cnd = z3.And(*conds) if conds else z3.BoolVal(True)
                v = x if v is None else seqmod.merge(cnd, x, v)
            merged_items.append(v)
        old = builtins.list(heap.cont[loc[1]][2])
        for v in merged_items:
            if value_occurs(v, allsyms):
                raise Unsupported('appended element depends on the loop state')

        def at_item(q, j):
            return subst_value(merged_items[q], k, j)

        def apply(upto):
            cnt = S(z3.simplify(iz(upto) - off))
            if m == 1:
                sq = seqmod.SSeq(cnt, lambda j: at_item(0, iz(ix(j)) + off))
            else:
                raise Unsupported('several appends per iteration')
            new = SList(seqmod.seq_concat(old, sq) if old else sq)
            rebind(heap, heap.cont[loc[1]][0], new)
        return {'apply': apply}
    if kind == 'temp':
        val = None
        ok = True
        for conds, out, ch in normal:
            if loc not in ch or isinstance(ch[loc][1], Sentinel) or ch[loc][1] is MISSING:
                ok = False

        def apply(upto):
            if not ok:
                return
            last = z3.simplify(iz(upto) - 1)
            try:
                v = None
                for conds, out, ch in reversed(normal):
                    x = ch[loc][1]
                    cnd = z3.And(*conds) if conds else z3.BoolVal(True)
                    v = x if v is None else seqmod.merge(cnd, x, v)
                if value_occurs(v, allsyms):
                    raise Unsupported('x')
                heap.put(loc, subst_value(v, k, last))
            except Unsupported:
                heap.put(loc, MISSING_VALUE)
        return {'apply': apply}
    raise Unsupported('loop location kind %s' % kind)


def rebind(heap, obj, new):
    """replace every reference to the list `obj` by `new`"""
    for name in heap.names:
        if heap.roots.get(name, None) is obj:
            heap.set_({name: new})
    for x, kind, old in heap.cont.values():
        if kind == 'dict':
            for kk, v in builtins.list(x.items()):
                if v is obj:
                    x[kk] = new
        elif kind == 'obj':
            for kk, v in builtins.list(vars(x).items()):
                if v is obj:
                    vars(x)[kk] = new
        elif kind == 'list':
            for i, v in builtins.enumerate(x):
                if v is obj:
                    x[i] = new


def heap_value(heap, loc):
    if loc[0] == 'var':
        return heap.roots.get(loc[1], MISSING)
    x, kind, old = heap.cont[loc[1]]
    if kind in ('dict', 'obj'):
        return old.get(loc[2], MISSING)
    return old


def find_const(normal, name, loc, z0):
    for conds, out, ch in normal:
        if loc in ch:
            e = to_z3(ch[loc][1])
            a = find_app(e, name)
            if a is not None:
                return a
    # not referenced: sort from the new value
    for conds, out, ch in normal:
        if loc in ch:
            srt = as_real(to_z3(ch[loc][1])).sort() if z0.sort() == RS else to_z3(ch[loc][1]).sort()
            return z3.Const(name, srt)
    return None


def skeleton(e, v, names):
    if e.eq(v):
        return e
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), skeleton(e.arg(1), v, names), skeleton(e.arg(2), v, names))
    return names.setdefault(e.get_id(), z3.Const('?leaf%d' % len(names), e.sort()))


def row_store(e, v, idx, k, others):
    """iteration k writes row k of an array, and nothing else:
    v'[..k..] = w(v[..k..]), v'[..i..] = v[..i..] for i != k"""
    if not occurs(e, {v.decl().name()}) or not occurs(e, {k.decl().name()}):
        return None
    for p, i in enumerate(idx):
        if z3.is_int_value(i):
            continue
        w = z3.simplify(z3.substitute(e, (k, i)))
        if occurs(w, others):
            continue
        # values written are arbitrary (only the conditions matter)
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(i != k, skeleton(e, v, {}) != v)
        if s.check() == z3.unsat:
            return p, w
    return None


def find_app(e, name):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() == name and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return x
            st.extend(x.children())
    return None


def template(c, e, v, others, dom):
    from . import prover
    nm = {v.decl().name()}
    if not occurs(e, nm):
        if occurs(e, others):
            raise Unsupported('loop state depends on other loop state')
        return {'t': 'last', 'e': e}

    def ok(goal):
        return prover.valid(c, goal)
    if v.sort() == BS:
        et = z3.simplify(z3.substitute(e, (v, z3.BoolVal(True))))
        ef = z3.simplify(z3.substitute(e, (v, z3.BoolVal(False))))
        if not occurs(et, others) and ok(e == z3.And(v, et)):
            return {'t': 'and', 'e': et}
        if not occurs(ef, others) and ok(e == z3.Or(v, ef)):
            return {'t': 'or', 'e': ef}
        raise Unsupported('boolean loop state without closed form')
    zero = z3.RealVal(0) if v.sort() == RS else z3.IntVal(0)
    one = z3.RealVal(1) if v.sort() == RS else z3.IntVal(1)
    d = z3.substitute(e, (v, zero))
    if not occurs(d, others) and ok(e == v + d):
        return {'t': 'sum', 'e': d}
    p = z3.substitute(e, (v, one))
    if not occurs(p, others) and ok(e == v * p):
        return {'t': 'prod', 'e': p}
    # extremum: e = If(v < m, m, v)
    for x in subterms_same_sort(e, v):
        if occurs(x, nm) or occurs(x, others):
            continue
        if ok(e == z3.If(v < x, x, v)):
            return {'t': 'max', 'e': x}
        if ok(e == z3.If(x < v, x, v)):
            return {'t': 'min', 'e': x}
    raise Unsupported('loop state without closed form')


def subterms_same_sort(e, v):
    out, st, seen = [], [e], set()
    while st and len(out) < 8:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.sort() == v.sort() and not x.eq(v) and not z3.is_app_of(x, z3.Z3_OP_ITE):
                out.append(x)
            st.extend(x.children())
    return out


def eval_template(f, v0, k, off, upto):
    e = f['e']
    upto = iz(upto)
    cnt = z3.simplify(upto - off)

    def at(j):
        return z3.substitute(e, (k, z3.simplify(iz(j) + off)))
    t = f['t']
    if t == 'last':
        return z3.substitute(e, (k, z3.simplify(upto - 1)))
    if t == 'sum':
        r = sum_e(ix(cnt), at)
        if e.sort() == IS and r.sort() == RS:
            r = z3.ToInt(r)
        return sym.e_add(v0, r)
    if t == 'prod':
        return sym.e_mul(v0, ext_e('PRODR', ix(cnt), at))
    if t == 'and':
        return z3.And(v0, forall_e(ix(cnt), at))
    if t == 'or':
        return z3.Or(v0, exists_e(ix(cnt), at))
    if t in ('max', 'min'):
        m = ext_e('MAXR' if t == 'max' else 'MINR', ix(cnt), at)
        a, b = sym.pair(v0, m)
        return z3.If(a < b, b, a) if t == 'max' else z3.If(b < a, b, a)


def value_occurs(v, syms):
    if isinstance(v, S):
        return occurs(v.e, syms)
    if isinstance(v, T):
        e = v.at(*[z3.Int('?t%d' % i) for i in range(v.ndim)])
        return occurs(e, syms)
    if isinstance(v, (builtins.list, builtins.tuple)):
        return builtins.any(value_occurs(x, syms) for x in v)
    if isinstance(v, builtins.dict):
        return builtins.any(value_occurs(x, syms) for x in v.values())
    return False


def subst_value(v, k, j):
    j = iz(j)
    if isinstance(v, S):
        return sym.wrap(z3.substitute(v.e, (k, j)))
    if isinstance(v, T):
        fn = v._fn

        def g(*idx):
            # the element function may itself be evaluated at bound variables
            e = fn(*idx)
            e = e if z3.is_expr(e) else to_z3(e)
            return z3.substitute(e, (k, j))
        sh = tuple(d if isinstance(d, int) else S(z3.substitute(d.e, (k, j))) for d in v.shape_)
        return T(sh, g, v.dtype_, v.np_like)
    if isinstance(v, builtins.tuple):
        return tuple(subst_value(x, k, j) for x in v)
    if isinstance(v, builtins.list):
        return [subst_value(x, k, j) for x in v]
    if isinstance(v, builtins.dict):
        return {a: subst_value(b, k, j) for a, b in v.items()}
    if isinstance(v, seqmod.SSeq):
        at = v._at
        n = v.n if isinstance(v.n, int) else S(z3.substitute(v.n.e, (k, j)))
        return seqmod.SSeq(n, lambda i: subst_value(at(i), k, j))
    if hasattr(v, 'vc_subst'):
        return v.vc_subst(k, j)
    return v
