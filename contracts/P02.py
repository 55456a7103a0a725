"""P02: merging of configuration files."""
import os
from pyvc.con import contract
CONTRACTS = []
S = 'settings.setup_manager.SetupManager.'
ALL = [S + f for f in ('__init__', '_setup_config', 'expand_strings', 'get_config')]
DERIVED = ['tf_float_precision', 'np_float_precision', 'git_short_sha', 'git_sha', 'git_origin', 'git_uncommited_changes', 'pip_installed_packages', 'config_name', 'egenerator_dir']


class Files:
    """configuration files with the given content: real files in concrete runs,
    the YAML reader's contract (content of the opened file) in proofs"""

    def __init__(self, env, content):
        self.content, self.opened = content, []
        m = env.mod('settings.setup_manager')
        self.version = m.version_control
        if env.is_concrete:
            import tempfile
            import atexit
            import shutil
            self.dir = tempfile.mkdtemp()
            atexit.register(shutil.rmtree, self.dir, True)
            from ruamel.yaml import YAML
            for n, c in content:
                os.makedirs(os.path.dirname(os.path.join(self.dir, n)), exist_ok=True)
                with open(os.path.join(self.dir, n), 'w') as f:
                    YAML(typ='safe').dump(c, f)
            return
        self.dir = '/some/where'
        files = self

        class F:
            def __init__(self, i):
                self.i = i

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        def fopen(path, mode='r', *a, **k):
            assert mode in ('r', 'rt')
            files.opened.append(path)
            return F([os.path.join(files.dir, n) for n, _ in content].index(path))

        class YAML:
            def __init__(self, *a, **k):
                pass

            def load(self, f):
                return copy(content[f.i][1])
        env.patch(m, 'open', fopen)
        env.patch(m.yaml, 'YAML', YAML)

    def paths(self):
        return [os.path.join(self.dir, n) for n, _ in self.content]


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy(v) for v in x]
    return x


def same(env, name, got, want):
    """equal values; numbers are compared as (symbolic) numbers"""
    if isinstance(want, dict):
        if env.concrete('%s is a dictionary with the same keys' % name, isinstance(got, dict) and sorted(got) == sorted(want)) is False:
            return
        for k in sorted(want):
            if isinstance(got, dict) and k in got:
                same(env, '%s.%s' % (name, k), got[k], want[k])
    elif isinstance(want, list):
        env.concrete('%s is a list of the same length' % name, isinstance(got, list) and len(got) == len(want))
        for i, (g, w) in enumerate(zip(got if isinstance(got, list) else [], want)):
            same(env, '%s[%d]' % (name, i), g, w)
    elif isinstance(want, (str, bool, int, type(None))):
        env.concrete(name, type(got) is type(want) and got == want)
    else:
        env.concrete('%s is a number' % name, not isinstance(got, (str, list, dict)))
        env.equal(name, got, want)


NAMES = ['float_precision', 'a', 'b', 'nested', 'other']


def value(env, name, kind):
    if name == 'float_precision':
        return env.choose('precision', ['float32', 'float64'])
    if kind == 'number':
        return env.real(name)
    if kind == 'list':
        return [env.real(name), 'text {x}', {'inner': 'y'}]
    if kind == 'flag':
        return env.flag(name)
    if kind == 'empty':
        return env.choose('empty', [None, '', 0, [], {}, False])
    return {'one': env.real(name), 'two': {'three': 'plain', 'four': [1, 2]}, 'five': None}


FN = ['first.yaml', 'sub/second.yaml', 'third.yml']


def contents(env, n, split, options=('list', 'flag', 'number', 'empty')):
    """options spread over n files as given by split (a file per option, or None)"""
    kinds = dict(zip(NAMES, ['precision', 'number', env.choose('kind', list(options)), 'dict', 'number']))
    out = [(FN[i], {}) for i in range(n)]
    for name, i in zip(NAMES, split):
        if i is not None and i < n:
            out[i][1][name] = value(env, name, kinds[name])
    return out


SPLITS = [(None, 0, 0, 0, 0), (0, 0, 0, 0, 0), (0, 1, 1, 0, 1), (1, 0, 2, 1, 2), (2, 2, 1, 0, 1), (None, 2, 0, 1, 1), (2, 0, None, 2, 0)]


@contract(CONTRACTS, ALL, bounded='up to 3 files with up to 5 options', trials=40)
def merged(env):
    """every option of every file with its value, defaults for the others, and
    the derived settings of the files that were read"""
    m = env.mod('settings.setup_manager')
    n = env.choose('files', [1, 2, 3])
    c = contents(env, n, env.choose('split', SPLITS))
    f = Files(env, c)
    paths = f.paths()
    given = tuple(paths) if env.flag('as tuple') else list(paths)
    mgr = m.SetupManager(given)
    got = mgr.get_config()
    want = {'float_precision': 'float32'}
    for _, x in c:
        want.update(x)
    env.concrete('exactly these options', sorted(got) == sorted(set(want) | set(DERIVED)))
    same(env, 'option', {k: v for k, v in got.items() if k not in DERIVED}, want)
    p = want['float_precision']
    env.concrete('tensorflow precision', got['tf_float_precision'] == getattr(m.tf, p))
    env.concrete('numpy precision', got['np_float_precision'] == getattr(m.np, p))
    env.concrete('name of the configuration', got['config_name'] == '__'.join(os.path.basename(q).replace('.yaml', '') for q in paths))
    env.concrete('location of the package', os.path.realpath(got['egenerator_dir']) == os.path.dirname(os.path.dirname(os.path.realpath(env.mod('manager.component').egenerator.__file__))))
    v = f.version
    env.concrete('version', got['git_short_sha'] == str(v.short_sha) and got['git_sha'] == str(v.sha) and got['git_origin'] == str(v.origin) and
                 got['git_uncommited_changes'] == v.uncommitted_changes and got['pip_installed_packages'] == v.installed_packages)
    if not env.is_concrete:
        env.concrete('every file is read once, in order', f.opened == paths)
    # copies are independent, also of later managers
    got['a'] = 'changed'
    if isinstance(got.get('nested'), dict):
        got['nested']['two']['three'] = 'changed'
    got['new'] = 1
    again = mgr.get_config()
    same(env, 'later copy', {k: v for k, v in again.items() if k not in DERIVED}, want)
    f2 = Files(env, [('last.yaml', {'x': 1})])
    same(env, 'defaults are not changed', {k: v for k, v in m.SetupManager(f2.paths()).get_config().items() if k not in DERIVED}, {'float_precision': 'float32', 'x': 1})


@contract(CONTRACTS, ALL, bounded='2 or 3 files with up to 5 options', trials=20)
def duplicate_options(env):
    """an option given in two files is rejected, also with the same value"""
    m = env.mod('settings.setup_manager')
    n = env.choose('files', [2, 3])
    c = contents(env, n, env.choose('split', SPLITS[2:4]), ['list', 'number'])
    i = env.choose('first', list(range(n)))
    j = env.choose('second', [q for q in range(n) if q != i])
    name = env.choose('option', ['a', 'nested', 'float_precision', 'own'])
    v = value(env, name, 'dict' if name == 'nested' else env.choose('value', ['number', 'empty']))
    c[i][1][name] = v
    c[j][1][name] = copy(v) if env.flag('same value') else value(env, name, 'flag')
    f = Files(env, c)
    env.raises('rejected', ValueError, lambda: m.SetupManager(f.paths()))


@contract(CONTRACTS, [S + '__init__', S + '_setup_config'])
def no_files(env):
    """without configuration files there is no configuration"""
    m = env.mod('settings.setup_manager')
    bad = env.choose('given', [[], (), None, 'file.yaml', {'file.yaml': 1}, 3])
    env.raises('rejected', ValueError, lambda: m.SetupManager(bad))


TEXT = ['plain', '{dir}', '{dir}/x/{run}', 'a{run:03d}b', '{{run}}', '{float_precision}_{config_name}', '']
WANT = ['plain', '/data', '/data/x/7', 'a007b', '{run}', 'float64_first__sub2', '']


@contract(CONTRACTS, ALL, bounded='dictionaries nested up to 3 levels', trials=30)
def placeholders(env):
    """placeholders in strings at any depth of the options stand for the top
    level options; other strings and values are left as they are"""
    m = env.mod('settings.setup_manager')
    i = env.choose('text', list(range(len(TEXT))))
    level = env.choose('level', [1, 2, 3])
    v = env.real('v')
    inner = {'t': TEXT[i], 'v': v, 'dir': 'own'}
    for _ in range(level - 1):
        inner = {'next': inner, 'dir': 'inner {run}', 'n': [TEXT[1]]}
    first, second = {'dir': '/data', 'float_precision': 'float64'}, {'run': 7, 'p': inner}
    if env.flag('order'):
        first, second = dict(first, p=inner), {'run': 7}
    f = Files(env, [('first.yaml', first), ('sub2.yaml', second)])
    got = m.SetupManager(f.paths()).get_config()
    want = {'t': WANT[i], 'v': v, 'dir': 'own'}
    for _ in range(level - 1):
        want = {'next': want, 'dir': 'inner 7', 'n': [TEXT[1]]}
    same(env, 'expanded', got['p'], want)
    env.concrete('options themselves', got['dir'] == '/data' and got['run'] == 7)
