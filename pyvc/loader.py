"""Mechanical extraction of the repository's functions.

`World.load('egenerator.x.y')` reads /repo's current source of that module,
applies the rewritings below, and executes the module with modelled imports.

Rewritings (everything else is executed by CPython as written):
  * docstrings stay, nothing is deleted;
  * every `for` statement inside a function becomes a call of the loop rule
    `__vc_for__` on a closure holding the unchanged loop body (return / break /
    continue are signalled through the return value);
  * every comprehension with a single generator becomes a call of
    `__vc_comp__` on closures holding the unchanged element and conditions;
  * `x in y` / `not in`, `is`-free; `a and b`, `or`, `not`, `if` are untouched
    (a symbolic truth value forks the execution).
"""
import ast
import builtins
import os
import types
from . import sym, seq


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.func_stack = []

    # -- helpers --
    def visit_FunctionDef(self, node):
        return self._func(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def _func(self, node):
        info = {'gen': contains_yield(node), 'pre': set(), 'node': node,
                'globals': declared(node, ast.Global), 'nonlocals': declared(node, ast.Nonlocal)}
        info['locals'] = assigned(node.body) - info['globals']
        self.func_stack.append(info)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body += r
            else:
                body.append(r)
        self.func_stack.pop()
        if info['pre']:
            pre = ast.parse('if 0:\n' + ''.join('    %s = None\n' % n for n in sorted(info['pre']))).body
            # keep a docstring first
            pos = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                pos = 1
            while pos < len(body) and isinstance(body[pos], (ast.Global, ast.Nonlocal)):
                pos += 1
            body[pos:pos] = pre
        node.body = body
        return node

    def visit_Lambda(self, node):
        self.func_stack.append({'gen': True, 'pre': set(), 'node': node, 'globals': set(), 'nonlocals': set(), 'lambda': True})
        node.body = self.visit(node.body)
        self.func_stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.func_stack.append(None)
        node.body = flat([self.visit(s) for s in node.body])
        self.func_stack.pop()
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name('__vc_in__', ast.Load()),
                            [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), call), node)
            return ast.copy_location(call, node)
        return node

    def visit_For(self, node):
        info = self.func_stack[-1] if self.func_stack else None
        self.generic_visit(node)
        if info is None or info['gen'] or has_del_or_yield(node) or info.get('lambda'):
            return node
        self.n += 1
        names = assigned(node.body) | targets(node.target)
        if names & info['globals']:
            return node
        params = {a.arg for a in all_args(info['node'])}
        info['pre'] |= (names - info['nonlocals'] - params)
        # every local of the function that the body reads can be re-bound by
        # the loop rule
        names = names | (loaded(node.body) & (info['locals'] | params))
        used = loaded(node.body) | names
        body = SignalRewriter().run(node.body)
        fname = '__vc_body_%d' % self.n
        src_nl = 'nonlocal ' + ', '.join(sorted(names)) if names else 'pass'
        fdef = ast.parse('def %s(__vc_x):\n    %s\n    pass' % (fname, src_nl)).body[0]
        assign = ast.Assign([node.target], ast.Name('__vc_x', ast.Load()))
        fdef.body = fdef.body[:1] + [assign] + body
        # state access
        gname, sname = '__vc_get_%d' % self.n, '__vc_set_%d' % self.n
        gsrc = 'def %s():\n    __vc_d = {}\n' % gname
        for n in sorted(used):
            gsrc += '    try: __vc_d[%r] = %s\n    except NameError: pass\n' % (n, n)
        gsrc += '    return __vc_d\n'
        ssrc = 'def %s(__vc_d):\n' % sname
        if names:
            ssrc += '    nonlocal %s\n' % ', '.join(sorted(names))
        for n in sorted(names):
            ssrc += '    if %r in __vc_d: %s = __vc_d[%r]\n' % (n, n, n)
        ssrc += '    return None\n'
        rname = '__vc_r_%d' % self.n
        call = ast.parse('%s = __vc_for__(None, %s, %s, %s, %r)' % (
            rname, fname, gname, sname, sorted(names))).body[0]
        call.value.args[0] = node.iter
        out = [fdef] + ast.parse(gsrc).body + ast.parse(ssrc).body + [call]
        if has_return(node.body):
            out += ast.parse('if %s is not None and %s[0] == "ret": return %s[1]' % (rname, rname, rname)).body
        if node.orelse:
            iff = ast.parse('if %s is None: pass' % rname).body[0]
            iff.body = node.orelse
            out.append(iff)
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        if self.func_stack and self.func_stack[-1] is None:
            return node     # class scope: names would not resolve
        g = node.generators[0]
        if has_walrus(node) or contains_yield(node):
            return node
        if any(isinstance(n, ast.Lambda) and not getattr(n, 'vc_comp', False) for n in ast.walk(node)):
            return node     # closures made per element capture the shared variable
        lam_args, unpack = lambda_target(g.target)
        if lam_args is None:
            return node

        def lam(e):
            r = ast.Lambda(ast.arguments([], [ast.arg(a) for a in lam_args], None, [], [], None, []), e)
            r.vc_comp = True
            return r
        if kind == 'dict':
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        cond = None
        for c in g.ifs:
            cond = c if cond is None else ast.BoolOp(ast.And(), [cond, c])
        call = ast.Call(ast.Name('__vc_comp__', ast.Load()), [
            ast.Constant(kind), g.iter, ast.Constant(unpack), lam(elt),
            lam(cond) if cond is not None else ast.Constant(None)], [])
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(call, node)), node)

    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_SetComp(self, node): return self._comp(node, 'set')
    def visit_DictComp(self, node): return self._comp(node, 'dict')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')


class AutographScopes(ast.NodeTransformer):
    """Inside @tf.function, AutoGraph turns a loop body into a function: names
    local to the body are fresh in every iteration, so closures created there
    capture that iteration's value.  Reproduced by binding them as defaults."""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if not any('tf.function' in ast.unparse(d) for d in node.decorator_list):
            return node
        for loop in [n for n in ast.walk(node) if isinstance(n, ast.For)]:
            names = assigned(loop.body) | targets(loop.target)
            inside = {id(x) for x in ast.walk(loop)}
            outside = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and id(n) not in inside}
            names -= outside
            for st in loop.body:
                for f in ast.walk(st):
                    if isinstance(f, (ast.Lambda, ast.FunctionDef)):
                        body = [f.body] if isinstance(f, ast.Lambda) else f.body
                        loads = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)}
                        have = {a.arg for a in all_args(f)} | (set() if isinstance(f, ast.Lambda) else assigned(f.body))
                        for n in sorted((loads & names) - have):
                            if isinstance(f, ast.FunctionDef) and n == f.name:
                                continue
                            f.args.kwonlyargs.append(ast.arg(n))
                            f.args.kw_defaults.append(ast.Name(n, ast.Load()))
        return ast.fix_missing_locations(node)


def flat(xs):
    out = []
    for x in xs:
        out += x if isinstance(x, list) else [x]
    return out


def lambda_target(t):
    """(argument names, unpack structure) for a comprehension target"""
    names = []

    def rec(t):
        if isinstance(t, ast.Name):
            names.append(t.id)
            return 0
        if isinstance(t, (ast.Tuple, ast.List)):
            r = [rec(e) for e in t.elts]
            if any(x is None for x in r):
                return None
            return tuple(r)
        return None
    u = rec(t)
    if u is None or len(set(names)) != len(names):
        if u is not None and len(set(names)) != len(names):
            # duplicate names such as `_`: rename all but the last
            return None, None
        return None, None
    return names, u


class SignalRewriter(ast.NodeTransformer):
    """return/break/continue of the loop body -> return codes"""

    def run(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_FunctionDef(self, node): return node
    def visit_Lambda(self, node): return node
    def visit_ClassDef(self, node): return node

    def visit_For(self, node):
        # only loops that were not rewritten (e.g. inside generators)
        node.body = ReturnOnly().run(node.body)
        node.orelse = self.run(node.orelse)
        return node

    def visit_While(self, node):
        node.body = ReturnOnly().run(node.body)
        node.orelse = self.run(node.orelse)
        return node

    def visit_Return(self, node):
        if isinstance(node.value, ast.Tuple) and node.value.elts and \
                isinstance(node.value.elts[0], ast.Constant) and \
                isinstance(node.value.elts[0].value, str) and \
                node.value.elts[0].value.startswith('__vc_'):
            return node
        v = node.value or ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant('ret'), v], ast.Load())), node)

    def visit_Break(self, node):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant('brk'), ast.Constant(None)], ast.Load())), node)

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(ast.Constant(None)), node)


class ReturnOnly(SignalRewriter):
    def visit_Break(self, node): return node
    def visit_Continue(self, node): return node


def contains_yield(node):
    for n in walk_same(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
    return False


def walk_same(node, root=False):
    """walk without entering nested function scopes"""
    if root and isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
        return
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            st.extend(ast.iter_child_nodes(n))


def declared(node, cls):
    out = set()
    for n in walk_same(node):
        if isinstance(n, cls):
            out |= set(n.names)
    return out


def has_del_or_yield(node):
    for n in walk_same(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if isinstance(n, ast.Delete) and any(isinstance(t, ast.Name) for t in n.targets):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'super') and not n.args:
            return True
    return False


def has_walrus(node):
    return any(isinstance(n, ast.NamedExpr) for n in ast.walk(node))


def targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def assigned(body):
    out = set()
    for st in body:
        for n in [st] + list(walk_same(st, True)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if n.id not in ('__vc_x',):
                    out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                if n.name.startswith('__vc_body_'):
                    out |= {x for y in n.body if isinstance(y, ast.Nonlocal) for x in y.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.Nonlocal):
                out |= set(n.names)
    # comprehension variables are local to the comprehension
    comp = set()
    for st in body:
        for n in [st] + list(walk_same(st, True)):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp |= targets(g.target)
    really = set()
    for st in body:
        for n in stores_outside_comp(st):
            really.add(n)
    return (out - comp) | really


def stores_outside_comp(node):
    out = set()

    def rec(n):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                rec(g.iter)
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            rec(c)
    rec(node)
    return out


def loaded(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if not n.id.startswith('__vc_'):
                    out.add(n.id)
    return out


def all_args(node):
    a = node.args
    return list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) + \
        ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def has_return(body):
    for st in body:
        for n in [st] + list(walk_same(st, True)):
            if isinstance(n, ast.Return):
                return True
    return False


# --------------------------------------------------------------------------------
# modules that only hold detector constants: executed with the real numpy
CONSTANT_MODULES = ('egenerator.utils.detector', 'egenerator.utils.dom_noise_rates')


class World:
    """One loading of the repository modules with modelled libraries."""

    def __init__(self, repo='/repo', models=None):
        self.repo = repo
        self.models = dict(models or {})
        self.modules = {}
        self.sources = {}
        self.patches = {}
        self.builtins = self._make_builtins()

    def _make_builtins(self):
        d = dict(vars(builtins))
        d.update(seq.BUILTINS)
        d['__import__'] = self._import
        d['__vc_for__'] = seq.vc_for
        d['__vc_comp__'] = seq.vc_comp
        d['__vc_in__'] = seq.vc_in
        return d

    def model(self, name):
        if name in self.models:
            m = self.models[name]
            return m
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.model(name)
        if m is not None:
            if fromlist:
                return m
            top = name.split('.')[0]
            if top == name:
                return m
            t = self.model(top)
            return t if t is not None else m
        if name.split('.')[0] == 'egenerator':
            if fromlist:
                mod = self.load(name)
                for f in fromlist:
                    if not hasattr(mod, f) and os.path.exists(self.path(name + '.' + f)):
                        setattr(mod, f, self.load(name + '.' + f))
                return mod
            self.load(name)
            return self.load('egenerator')
        top = name.split('.')[0]
        if top in ('tensorflow', 'tensorflow_probability', 'pandas', 'scipy', 'tfscripts', 'icecube',
                   'getclass', 'ruamel', 'h5py', 'matplotlib', 'tqdm', 'click', 'git', 'ic3_labels'):
            raise ModuleNotFoundError('No module named %r' % name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _load_constants(self, name, path, src, mod):
        import numpy as np
        from .tensor import const_tensor
        code = compile(src, path, 'exec')
        g = mod.__dict__
        g.update(__name__=name, __file__=path, __package__=name.rpartition('.')[0])

        def imp(n, globals=None, locals=None, fromlist=(), level=0):
            if level:
                return self.load(name.rpartition('.')[0] + '.' + n)
            return builtins.__import__(n, globals, locals, fromlist, level)
        g['__builtins__'] = dict(vars(builtins), __import__=imp)
        exec(code, g)
        self.sources[name] = src
        for k, v in list(g.items()):
            if isinstance(v, np.ndarray) and v.size > 200:
                g[k] = const_tensor(v)
        parent, _, child = name.rpartition('.')
        setattr(self.load(parent), child, mod)
        return mod

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.path(name)
        up = name.rpartition('.')[0]
        if up and up not in self.modules and os.path.exists(path):
            self.load(up)          # packages run first, as in python
            if name in self.modules:
                return self.modules[name]
        mod = types.ModuleType(name)
        self.modules[name] = mod
        is_pkg = path.endswith('__init__.py')
        if is_pkg and name == 'egenerator':
            # the package file only re-exports version information
            mod.__path__ = []
        src = open(path).read() if os.path.exists(path) else None
        if name in CONSTANT_MODULES and src is not None:
            return self._load_constants(name, path, src, mod)
        if src is None:
            del self.modules[name]
            raise ModuleNotFoundError('No module named %r' % name)
        self.sources[name] = src
        tree = ast.parse(src, path)
        tree = Rewriter().visit(AutographScopes().visit(tree))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        g = mod.__dict__
        g['__builtins__'] = self.builtins
        g['__name__'] = name
        g['__file__'] = path
        g['__package__'] = name if is_pkg else name.rpartition('.')[0]
        if name in self.patches:
            self.patches[name](mod, 'pre')
        try:
            exec(code, g)
        except Exception:
            del self.modules[name]
            raise
        parent, _, child = name.rpartition('.')
        if parent:
            try:
                setattr(self.load(parent), child, mod)
            except ModuleNotFoundError:
                pass
        return mod
