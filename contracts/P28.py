"""P28: the training loop."""
from pyvc.con import contract
from contracts.common import Obj, NullLog, subclass, deep
CONTRACTS = []
B = 'manager.base.BaseModelManager.'


class Lib:
    """tensorflow with the given parts replaced"""

    def __init__(self, tf, **kw):
        self.__dict__.update(kw)
        self.tf = tf

    def __getattr__(self, k):
        return getattr(self.tf, k)


class Data:
    """an endless sequence of numbered batches"""

    def __init__(self, kind, settings):
        self.kind, self.settings, self.n = kind, settings, 0
        self.element_spec = 'spec of the data'

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return (self.kind, self.n)


class Step:
    def __init__(self, log):
        self.log, self.n = log, 0

    def assign_add(self, k):
        self.n += k


class Run:
    """a training run, every effect of it recorded in order"""

    def __init__(self, env, config, evaluation, n_models, losses):
        self.env, self.log, self.data, self.made = env, [], [], []
        m = self.m = env.mod('manager.base')
        run = self

        class Handler:
            tensors = Obj()

            def get_tf_dataset(self, **kw):
                run.data.append(Data(kw['which'], kw))
                return run.data[-1]

        def function(f=None, input_signature=None, **kw):
            run.made.append(input_signature)
            return f if f is not None else (lambda g: g)

        class Optimizers:
            def __init__(self, kind):
                self.kind = kind

            def __getattr__(self, name):
                return lambda **kw: (name, kw)

        def writer(d):
            return Obj(dir=d, flush=lambda: None)
        profiler = Obj(experimental=Obj(start=lambda d: run.log.append(('profile', True, d)), stop=lambda: run.log.append(('profile', False))))
        tf = Lib(env.tf, function=function, optimizers=Optimizers('a'), keras=Obj(optimizers=Optimizers('b')), summary=Obj(create_file_writer=writer), profiler=profiler,
                 convert_to_tensor=lambda v, dtype=None, **k: v, constant=lambda v, dtype=None, **k: v)
        env.patch(m, 'tf', tf)
        env.patch(m, 'print', lambda *a, **k: None)
        env.patch(m.misc, 'load_class', lambda s: (lambda **kw: ('schedule', s, kw)))
        self.models = [Obj(step=Step(self.log)) for _ in range(n_models)]
        self.handler = Handler()
        self.loss = Obj()
        self.evaluation = Obj(evaluate=lambda **kw: run.log.append(('evaluate', kw))) if evaluation else None

        def loss(s, data_batch, *a, **kw):
            run.log.append(('loss', data_batch, a, kw))
            return losses[data_batch[0]]
        self.mgr = subclass(m.BaseModelManager, assert_configured=lambda s, v: None, configuration=Obj(config={'config': {'manager_dir': 'dir'}}), _untracked_data={}, models=self.models, data_handler=self.handler, _logger=NullLog(),
                            save=lambda s, *a, **kw: run.log.append(('save', a, kw)), save_weights=lambda s, *a, **kw: run.log.append(('weights', a, kw)),
                            perform_training_step=lambda s, data_batch, *a, **kw: run.log.append(('train', data_batch, a, kw, [q.step.n for q in run.models], s.optimizer)),
                            get_loss=loss)

    def of(self, *kinds):
        return [e for e in self.log if e[0] in kinds]


def settings(env, v=1, e=1, s=1, rate=0.5, extra=None):
    return {'training_settings': {'optimizer_name': 'Adam', 'optimizer_settings': {'learning_rate': rate, 'beta': 0.25}, 'validation_frequency': v, 'evaluation_frequency': e, 'save_frequency': s,
                                  'additional_loss_module_kwargs': dict(extra or {}), 'l1_regularization': 0.},
            'data_iterator_settings': {'training': {'which': 'training', 'batch_size': 3}, 'validation': {'which': 'validation', 'batch_size': 7}, 'trafo': {'which': 'trafo'}}}


@contract(CONTRACTS, [B + 'train', B + 'get_concrete_function', B + 'optimizer'])
def start(env):
    """before the first step the settings, the loss and the evaluation of the
    run are saved; the optimiser is the stated one"""
    rate = env.choose('learning rate', ['value', 'schedule', None])
    value = env.pos('rate')
    c = settings(env, rate=value if rate == 'value' else {'full_class_string': 'my.Schedule', 'settings': {'a': 1, 'b': value}})
    if rate is None:
        del c['training_settings']['optimizer_settings']['learning_rate']
    before = deep(c)
    evaluation = env.flag('evaluation')
    run = Run(env, c, evaluation, 1, {'training': 1.5, 'validation': 2.5})
    run.mgr.train(c, run.loss, 1, run.evaluation)
    want = {'beta': 0.25}
    if rate == 'value':
        want['learning_rate'] = value
    elif rate == 'schedule':
        want['learning_rate'] = ('schedule', 'my.Schedule', {'a': 1, 'b': value})
    got = run.mgr.optimizer
    env.concrete('optimiser', got[0] == 'Adam' and sorted(got[1]) == sorted(want) and got[1]['beta'] == 0.25)
    if rate == 'value':
        env.equal('learning rate', got[1]['learning_rate'], value)
    elif rate == 'schedule':
        env.concrete('schedule', got[1]['learning_rate'][:2] == ('schedule', 'my.Schedule') and got[1]['learning_rate'][2]['a'] == 1)
        env.equal('its settings', got[1]['learning_rate'][2]['b'], value)
    env.concrete('used for the step', run.of('train')[0][5] is got)
    saves = run.of('save')
    env.concrete('saved first', len(saves) == 1 and run.log[0][0] == 'save')
    kw = dict(zip(['dir_path'], saves[0][1]), **saves[0][2])
    env.concrete('where', kw['dir_path'] == 'dir' and kw['protected'] is True and kw['overwrite'] is True and kw.get('num_training_steps') is None)
    n = kw['new_training_settings']
    env.concrete('settings of the run', n['config'] is c and sorted(n) == ['components', 'config'])
    env.concrete('components of the run', sorted(n['components']) == (['evaluation_module', 'loss_module'] if evaluation else ['loss_module']) and n['components']['loss_module'] is run.loss
                 and n['components'].get('evaluation_module') is run.evaluation)
    if rate != 'schedule':
        t, u = deep(c['training_settings']), deep(before['training_settings'])
        t['optimizer_settings'].pop('learning_rate', None), u['optimizer_settings'].pop('learning_rate', None)
        env.concrete('settings unchanged', t == u)
    else:
        env.concrete('settings unchanged', c['training_settings']['optimizer_settings']['learning_rate']['full_class_string'] == 'my.Schedule')
    env.concrete('data', sorted(d.kind for d in run.data) == ['training', 'validation'] and all(d.settings == c['data_iterator_settings'][d.kind] for d in run.data))


def step_checks(env, run, log, c, s, evaluation, extra):
    """what happens in the iteration with index s"""
    o = c['training_settings']
    kinds = [e[0] for e in log]
    tr = [e for e in log if e[0] == 'train']
    env.concrete('one training step', len(tr) == 1 and tr[0][1][0] == 'training')
    env.concrete('training step as configured', tr[0][3].get('loss_module') is run.loss and tr[0][3].get('opt_config') is o and {k: v for k, v in tr[0][3].items() if k not in ('loss_module', 'opt_config')} == extra)
    losses = [e for e in log if e[0] == 'loss']
    val = bool(s % o['validation_frequency'] == 0)
    env.concrete('validation as scheduled', len(losses) == (2 if val else 0))
    if val:
        env.concrete('data of the losses', [e[1][0] for e in losses] == ['training', 'validation'])
        env.concrete('losses of the evaluation', all(e[3]['is_training'] is False and e[3]['loss_module'] is run.loss and e[3]['opt_config'] is o for e in losses))
        env.concrete('losses with the stated keywords', all({k: v for k, v in e[3].items() if k not in ('loss_module', 'opt_config', 'is_training', 'summary_writer')} == extra for e in losses))
        env.concrete('losses logged apart', [e[3]['summary_writer'].dir for e in losses] == ['dir/logs/training', 'dir/logs/validation'])
        env.concrete('after the step', kinds.index('train') < kinds.index('loss'))
    ev = [e[1] for e in log if e[0] == 'evaluate']
    due = bool(s % o['evaluation_frequency'] == 0) and evaluation
    env.concrete('evaluation as scheduled', len(ev) == int(due))
    if due:
        env.concrete('evaluation of validation data', ev[0]['data_batch'][0] == 'validation' and ev[0]['loss_module'] is run.loss and ev[0]['tensors'] is run.handler.tensors and ev[0]['writer'].dir == 'dir/logs/evaluation')
        env.equal('evaluated step', ev[0]['step'], s)
    w = [dict(zip(['dir_path'], e[1]), **e[2]) for e in log if e[0] == 'weights']
    due = bool(s % o['save_frequency'] == 0) and bool(s != 0)
    env.concrete('saved as scheduled', len(w) == int(due))
    if due:
        env.concrete('saved where', w[0]['dir_path'] == 'dir' and not w[0].get('protected', False) and kinds.index('train') < kinds.index('weights'))
        env.equal('saved step', w[0]['num_training_steps'], s)


@contract(CONTRACTS, [B + 'train', B + 'get_concrete_function'])
def iteration(env):
    """any iteration of a run of any length: one step on a training batch, and
    evaluation and saving exactly when due"""
    extra = env.choose('keywords', [{}, {'normalize_by_total_charge': True}])
    c = settings(env, env.int('validation frequency', 1), env.int('evaluation frequency', 1), env.int('save frequency', 1), extra=extra)
    total = env.int('iterations', 1)
    evaluation = env.flag('evaluation')
    seen, mark = [], []
    run = Run(env, c, evaluation, env.choose('models', [1, 2]), {'training': 1.5, 'validation': 2.5})

    def steps(*a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        s = env.int('step', 0, total - 1)
        seen.append((lo, hi, s))
        yield lo + s
        mark.append(len(run.log))
    env.patch(run.m, 'range', steps)
    profile = env.flag('profile')
    run.mgr.train(c, run.loss, total, run.evaluation, profile_training=profile)
    if env.is_concrete and len(seen) != 1:
        return
    env.concrete('one loop', len(seen) == 1 and len(mark) == 1)
    lo, hi, s = seen[0]
    env.equal('as many iterations as stated', hi - lo, total)
    env.concrete('counted once', all(q.step.n == 1 for q in run.models))
    env.concrete('counted before the step', run.of('train')[0][4] == [1] * len(run.models))
    env.concrete('profiled steps', [e[1] for e in run.of('profile')] == ([True] if profile and bool(s == 90) else [False] if profile and bool(s == 100) else []))
    step_checks(env, run, run.log[1:mark[0]], c, s, evaluation, extra)


@contract(CONTRACTS, [B + 'train', B + 'get_concrete_function'], bounded='runs of up to 7 steps')
def whole(env):
    """a whole run: every iteration in order on batches of its own, stopping at
    an invalid loss; the weights are saved at the end"""
    n = env.choose('iterations', [1, 2, 7])
    c = settings(env, env.choose('validation frequency', [1, 3]), env.choose('evaluation frequency', [1, 2, 10]), env.choose('save frequency', [1, 3, 10]))
    evaluation = env.flag('evaluation')
    bad = env.choose('invalid loss', [None, 'training', 'validation'])
    losses = {'training': 1.5, 'validation': 2.5}
    run = Run(env, c, evaluation, env.choose('models', [1, 2, 3]), losses)
    if bad:
        losses[bad] = float('nan')
        env.raises('invalid loss', ValueError, lambda: run.mgr.train(c, run.loss, n, run.evaluation))
        env.concrete('no further step', len(run.of('train')) == 1 and not run.of('weights'))
        return
    run.mgr.train(c, run.loss, n, run.evaluation)
    env.concrete('every step counted', all(q.step.n == n for q in run.models))
    tr = run.of('train')
    env.concrete('every step on a batch of its own', len({e[1] for e in tr}) == len(tr) == n)
    env.concrete('counted before the step', all(k == [i + 1] * len(run.models) for i, k in enumerate(e[4] for e in tr)))
    last = run.log[-1]
    kw = dict(zip(['dir_path'], last[1]), **last[2])
    env.concrete('saved at the end', last[0] == 'weights' and kw['dir_path'] == 'dir' and kw['protected'] is True and kw['num_training_steps'] == n - 1)
    log = run.log[1:-1]
    at = [i for i, e in enumerate(log) if e[0] == 'train'] + [len(log)]
    for s in range(n):
        step_checks(env, run, log[at[s]:at[s + 1]], c, s, evaluation, {})
