"""helpers shared by contracts (no z3, no tensorflow at import)"""


class OutsideContract(AttributeError):
    """the code asked a stand-in collaborator for something the contract does
    not describe: undecided, not a violation"""


class Obj:
    """a collaborator: a bag of attributes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise OutsideContract('collaborator attribute %s is not described by the contract' % k)


class NullLog:
    def debug(self, *a, **k):
        pass
    info = warning = error = critical = exception = debug


def subclass(base, **attrs):
    """an instance of the class under contract whose collaborators are
    replaced; methods (also newly extracted helpers) are the real ones"""
    attrs.setdefault('__init__', lambda self: None)
    return type('UnderContract', (base,), attrs)()


class Names:
    """tensor list stand-in: names and indices"""

    def __init__(self, names):
        self.names = list(names)

    def get_index(self, n):
        return self.names.index(n)


def numpyish(env, x):
    """the value as a tensor the code sees after a graph call"""
    return env.tf.constant(x) if env.is_concrete else x


def deep(x):
    """a copy of plain data (symbolic values are immutable)"""
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    if isinstance(x, tuple):
        return tuple(deep(v) for v in x)
    return x


def same(env, name, got, want):
    """equal values of equal kind; numbers are compared as (symbolic) numbers"""
    if isinstance(want, dict):
        env.concrete('%s is a dictionary with the same keys' % name, isinstance(got, dict) and sorted(got, key=str) == sorted(want, key=str))
        for k in sorted(want, key=str):
            if isinstance(got, dict) and k in got:
                same(env, '%s.%s' % (name, k), got[k], want[k])
    elif isinstance(want, (list, tuple)):
        env.concrete('%s is a list of the same length' % name, isinstance(got, (list, tuple)) and len(got) == len(want))
        for i, (g, w) in enumerate(zip(got if isinstance(got, (list, tuple)) else [], want)):
            same(env, '%s[%d]' % (name, i), g, w)
    elif isinstance(want, (str, bool, int, type(None))):
        env.concrete(name, type(got) is type(want) and got == want)
    else:
        env.concrete('%s is a number' % name, not isinstance(got, (str, list, dict, type(None))))
        env.equal(name, got, want)


class Disk:
    """a directory for the code under contract: a real scratch directory in
    concrete runs; in proofs the contract of the file operations (the content
    written last is the content read)"""

    def __init__(self, env, *modules):
        import glob as real_glob
        import os
        self.env, self.real_os, self.log = env, os, []
        if env.is_concrete:
            import atexit
            import shutil
            import tempfile
            self.root = tempfile.mkdtemp()
            atexit.register(shutil.rmtree, self.root, True)
            return
        self.root, self.files, self.dirs = '/scratch', {}, {'/scratch', '/'}
        disk = self

        class Handle:
            def __init__(self, path, mode):
                self.path, self.mode, self.closed, self.end = path, mode, False, False

            def close(self):
                self.closed = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
                return False

        def fopen(path, mode='r', *a, **k):
            path = os.path.normpath(path)
            if 'r' in mode and '+' not in mode:
                if path not in disk.files:
                    raise IOError('no such file %s' % path)
            else:
                if os.path.dirname(path) not in disk.dirs:
                    raise IOError('no such directory %s' % os.path.dirname(path))
                if 'x' in mode and path in disk.files:
                    raise IOError('exists')
                if 'a' not in mode:
                    disk.files[path] = None
                disk.log.append(('write', path))
            return Handle(path, mode)

        def write(kind):
            def dump(value, handle, *a, **k):
                assert not handle.closed and 'r' not in handle.mode
                disk.files[handle.path] = (kind, deep(value))
            return dump

        def read(kind):
            def load(handle, *a, **k):
                assert not handle.closed and 'r' in handle.mode
                v = disk.files[handle.path]
                if v is None or v[0] != kind:
                    raise ValueError('the file is not a %s file' % kind)
                return deep(v[1])
            return load

        def makedirs(path, mode=None, exist_ok=False):
            if not path:
                raise OSError('no such file or directory')
            path = os.path.normpath(path)
            if path in disk.dirs and not exist_ok:
                raise OSError('exists')
            while path not in disk.dirs:
                disk.dirs.add(path)
                path = os.path.dirname(path)

        def remove(path):
            path = os.path.normpath(path)
            if path not in disk.files:
                raise OSError('no such file')
            del disk.files[path]
            disk.log.append(('remove', path))

        def glob(pattern):
            import fnmatch
            return sorted(f for f in disk.files if fnmatch.fnmatch(f, pattern))

        def replace(a, b):
            a, b = os.path.normpath(a), os.path.normpath(b)
            disk.files[b] = disk.files.pop(a)
            disk.log.append(('move', a, b))

        def listdir(path):
            path = os.path.normpath(path)
            return sorted({f[len(path) + 1:].split('/')[0] for f in list(disk.files) + sorted(disk.dirs) if f.startswith(path + '/')})

        path = Obj(join=os.path.join, splitext=os.path.splitext, basename=os.path.basename, dirname=os.path.dirname, normpath=os.path.normpath,
                   exists=lambda p: os.path.normpath(p) in disk.files or os.path.normpath(p) in disk.dirs,
                   isfile=lambda p: os.path.normpath(p) in disk.files, isdir=lambda p: os.path.normpath(p) in disk.dirs, abspath=os.path.normpath)
        for module in modules:
            env.patch(module, 'os', Obj(path=path, makedirs=makedirs, remove=remove, unlink=remove, replace=replace, rename=replace, listdir=listdir))
            env.patch(module, 'open', fopen)
            env.patch(module, 'yaml', Obj(dump=write('yaml'), load=read('yaml'), safe_load=read('yaml'), safe_dump=write('yaml'), Loader='Loader'))
            env.patch(module, 'pickle', Obj(dump=write('pickle'), load=read('pickle')))
            if hasattr(module, 'glob') and not isinstance(module.glob, type(None)):
                env.patch(module, 'glob', Obj(glob=glob, escape=real_glob.escape))

    def enter(self, name):
        """continue in a sub directory"""
        self.root = self.path(name)
        if self.env.is_concrete:
            self.real_os.makedirs(self.root)
        else:
            self.dirs.add(self.root)

    def path(self, *parts):
        return self.real_os.path.join(self.root, *parts)

    def listing(self):
        """relative paths of all files"""
        if not self.env.is_concrete:
            return sorted(f[len(self.root) + 1:] for f in self.files)
        out = []
        for d, _, fs in self.real_os.walk(self.root):
            out += [self.real_os.path.relpath(self.real_os.path.join(d, f), self.root) for f in fs]
        return sorted(out)

    def content(self, rel):
        """an opaque token of the content of a file"""
        if not self.env.is_concrete:
            return repr(self.files.get(self.path(rel)))
        with open(self.path(rel), 'rb') as f:
            return f.read()

    def snapshot(self):
        return {f: self.content(f) for f in self.listing()}

    def load_yaml(self, rel):
        if not self.env.is_concrete:
            return deep(self.files[self.path(rel)][1])
        import ruamel.yaml as yaml
        with open(self.path(rel)) as f:
            return yaml.load(f, Loader=yaml.Loader)

    def dump_yaml(self, rel, value):
        if not self.env.is_concrete:
            self.files[self.path(rel)] = ('yaml', deep(value))
            return
        import ruamel.yaml as yaml
        with open(self.path(rel), 'w') as f:
            yaml.dump(value, f)

    def touch(self, rel):
        d = self.real_os.path.dirname(self.path(rel))
        if not self.env.is_concrete:
            while d not in self.dirs:
                self.dirs.add(d)
                d = self.real_os.path.dirname(d)
            self.files[self.path(rel)] = None
            return
        self.real_os.makedirs(d, exist_ok=True)
        open(self.path(rel), 'w').close()


class Tables:
    """an hdf file for the code under contract: tables of named columns"""

    def __init__(self, env, strict=True):
        self.env, self.tables, self.open, self.opened = env, {}, 0, []
        tabs = self

        class Store:
            def __init__(self, path, mode=None, *a, **k):
                self.is_open = True
                tabs.open += 1
                tabs.opened.append(path)
                if mode not in ('r', None):
                    raise OutsideContract('the file is only read')

            def close(self):
                if self.is_open:
                    tabs.open -= 1
                self.is_open = False

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
                return False

            def __contains__(self, key):
                return key in tabs.tables

            def __getitem__(self, key):
                if not self.is_open:
                    raise ValueError('the file is closed')      # pandas raises a ClosedFileError here
                if key not in tabs.tables:
                    raise KeyError('No object named %s in the file' % key)
                return tabs.frame(key)

            def keys(self):
                return sorted(tabs.tables)
        self.pandas = Obj(HDFStore=Store, read_hdf=lambda path, key=None: Store(path)[key])

    def add(self, table, column, values):
        self.tables.setdefault(table, {})[column] = values

    def frame(self, key):
        cols = self.tables[key]
        if self.env.is_concrete:
            import pandas
            return pandas.DataFrame({k: (v.copy() if hasattr(v, 'copy') else v) for k, v in cols.items()})
        return Frame(cols)


class Frame:
    """proof side of a table: columns are arrays"""

    def __init__(self, cols):
        from pyvc.tensor import as_t
        self.cols = {k: as_t(v).copy() for k, v in cols.items()}

    def __getitem__(self, k):
        return self.cols[k]

    def __contains__(self, k):
        return k in self.cols

    def keys(self):
        return self.cols.keys()

    @property
    def columns(self):
        return list(self.cols)

    def vc_len(self):
        from pyvc.seq import vc_len
        return vc_len(next(iter(self.cols.values())))

    def itertuples(self, index=True):
        assert index
        for i in range(int(self.vc_len())):
            yield (i,) + tuple(c[i] for c in self.cols.values())

    def iterrows(self):
        for row in self.itertuples():
            yield row[0], row[1:]
