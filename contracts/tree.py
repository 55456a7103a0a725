"""component trees for P03 and P04: classes derived from the real BaseComponent"""
from contracts.common import Obj, NullLog, Disk, same, deep


class Log(NullLog):
    def __init__(self):
        self.warnings = []

    def warning(self, msg, *a, **k):
        self.warnings.append(msg)


class World:
    """component classes A, B, C over the code under contract"""

    def __init__(self, env):
        self.env = env
        m = self.m = env.mod('manager.component')
        self.log = Log()
        self.made = []
        world = self

        def configure(self, **kw):
            subs = {k: v for k, v in kw.items() if isinstance(v, m.BaseComponent)}
            s = {k: v for k, v in kw.items() if k not in subs}
            conf = m.Configuration(class_string=m.misc.get_full_class_string_of_object(self), settings=dict(s, fixed=[1, 'x']), mutable_settings={'free': s['setting']},
                                   check_values={'check': s['setting']}, logger=NullLog(), sub_component_configurations={}, mutable_sub_components=world.mutable)
            return conf, {'value': s['data'], 'nested': {'v': [s['setting'], None]}}, subs

        def update(self, names):
            self._untracked_data['updated'] = list(names)

        def _save(self, dir_path, **kw):
            world.saved.append((self, dir_path, kw))

        def _load(self, dir_path, **kw):
            world.loaded.append((self, dir_path, kw))
        self.saved, self.loaded = [], []

        def init(self, logger=None):
            m.BaseComponent.__init__(self, logger=logger or world.log)
        ns = dict(_configure=configure, _update_sub_components=update, _save=_save, _load=_load, __init__=init)
        self.classes = {n: type(n, (m.BaseComponent,), dict(ns)) for n in 'ABC'}

        def load_class(s):
            return world.classes[s.split('.')[-1]]
        env.patch(m.misc, 'load_class', load_class)
        self.disk = Disk(env, m)

    def new(self, cls, subs=None, mutable=(), v=None, data=None):
        """a configured component"""
        x = self.classes[cls]()
        self.mutable = list(mutable)
        x.configure(setting=self.env.real('setting') if v is None else v, data=self.env.real('data') if data is None else data, **(subs or {}))
        return x

    def check(self, name, got, want):
        """got equals want in configuration, data and sub components"""
        env = self.env
        env.concrete(name + ' is configured', got.is_configured is True)
        env.concrete(name + ' has the class', type(got).__name__ == type(want).__name__)
        same(env, name + ' configuration', got.configuration.dict, want.configuration.dict)
        same(env, name + ' settings', got.configuration.config, want.configuration.config)
        same(env, name + ' data', got.data, want.data)
        env.concrete(name + ' sub components', sorted(got.sub_components) == sorted(want.sub_components))
        for k in sorted(want.sub_components):
            if k in got.sub_components:
                self.check(name + '/' + k, got.sub_components[k], want.sub_components[k])
