"""Deterministic execution of the processes of the code under contract.

Processes run as threads of which exactly one executes at a time; control can
change only where the code touches shared objects (values, locks, queues,
sleep).  The order is chosen by the contract: a priority order of the processes
decides who continues when a process has to wait, and `switch` names the
operation at which another process takes over instead.  What a process owns
alone (plain variables of its closure) is copied when it is started, as by fork.
"""
import copy
import queue
import threading
import types
from contracts.common import Obj, OutsideContract


class Stuck(AssertionError):
    """no process can ever continue"""


class Stop(BaseException):
    pass


def fork(f, memo=None):
    """the function with private copies of what its closure holds"""
    memo = {} if memo is None else memo

    def value(v):
        if isinstance(v, types.FunctionType) and v.__closure__ and '<locals>' in v.__qualname__:
            return function(v)
        if isinstance(v, (list, dict, set)):
            if id(v) not in memo:
                memo[id(v)] = (copy.copy(v), v)
            return memo[id(v)][0]
        return v

    def cell(c):
        if id(c) not in memo:
            new = types.CellType()
            memo[id(c)] = (new, c)
            try:
                new.cell_contents = value(c.cell_contents)
            except ValueError:
                pass
        return memo[id(c)][0]

    def function(v):
        if id(v) not in memo:
            memo[id(v)] = (None, v)
            g = types.FunctionType(v.__code__, v.__globals__, v.__name__, v.__defaults__, tuple(cell(c) for c in v.__closure__ or ()))
            g.__kwdefaults__ = v.__kwdefaults__
            g.__qualname__ = v.__qualname__
            memo[id(v)] = (g, v)
        if memo[id(v)][0] is None:      # refers to itself: same cell
            return v
        return memo[id(v)][0]
    return function(f)


class Task:
    def __init__(self, name, f):
        self.name, self.f, self.go = name, f, threading.Semaphore(0)
        self.done, self.need, self.idle, self.seen = False, None, 0, -1


class Sched:
    LIMIT = 4000

    def __init__(self, order=None, switch=None, second=None):
        """order: priority of the processes (-1 is the consumer); switch: number
        of the operation at which the next one in turn continues instead"""
        self.main = Task('consumer', None)
        self.tasks, self.current, self.steps, self.version = [self.main], self.main, 0, 0
        self.order, self.switches, self.error, self.stop = order, [k for k in (switch, second) if k is not None], None, False
        self.created = []

    # --- control
    def runnable(self, t):
        if t.done:
            return False
        if t.need is None:
            return True
        return bool(t.need(t))

    def ranked(self):
        ts = list(self.tasks)
        if self.order:
            n = len(ts)
            ts.sort(key=lambda t: self.order.index(self.tasks.index(t)) if self.tasks.index(t) in self.order else n)
        return ts

    def pick(self):
        """who continues when the current process cannot: next in turn"""
        ts = self.ranked()
        i = ts.index(self.current)
        for t in ts[i + 1:] + ts[:i + 1]:
            if self.runnable(t):
                return t
        return None

    def transfer(self, t):
        me = self.current
        if t is me:
            return
        self.current = t
        t.go.release()
        if not me.done:
            me.go.acquire()
            if self.stop and me is not self.main:
                raise Stop()
            if me is self.main and self.error is not None:
                raise self.error

    def fail(self, exc):
        if self.error is None:
            self.error = exc
        if self.current is self.main:
            raise self.error
        self.transfer(self.main)

    def point(self, need=None):
        """an operation on a shared object; need: when it can be carried out"""
        if self.stop:
            raise Stop()
        me = self.current
        self.steps += 1
        if self.steps > self.LIMIT:
            self.fail(Stuck('the processes run forever without progress'))
        me.need = need
        if me.seen != self.version:
            me.seen, me.idle = self.version, 0
        me.idle += 1
        if not self.runnable(me) or self.steps in self.switches or me.idle > 40:
            t = None
            if self.runnable(me):       # somebody else, if possible
                ts = self.ranked()
                i = ts.index(me)
                t = next((x for x in ts[i + 1:] + ts[:i] if self.runnable(x)), me)
                me.idle = 0
            else:
                t = self.pick()
            if t is None:
                self.fail(Stuck('every process waits: ' + ', '.join(x.name for x in self.tasks if not x.done)))
            self.transfer(t)
            while not self.runnable(me):
                t = self.pick()
                if t is None:
                    self.fail(Stuck('every process waits'))
                self.transfer(t)
        me.need = None

    def changed(self):
        self.version += 1

    def poll(self):
        """a condition for operations that give up after some time: they may do
        so, but not forever while nothing changes"""
        state = {'v': self.version, 'n': getattr(self.current, 'polls', 0)}
        me = self.current
        if getattr(me, 'poll_version', None) != self.version:
            me.poll_version, me.polls = self.version, 0
        me.polls += 1

        def can(t):
            return me.polls <= 3 or me.poll_version != self.version
        return can

    # --- processes
    def start(self, f, args, kwargs):
        t = Task('process %d' % len(self.tasks), None)
        f = fork(f)

        def run():
            t.go.acquire()
            try:
                if not self.stop:
                    f(*args, **kwargs)
            except Stop:
                return
            except BaseException as exc:      # noqa
                self.error = self.error or exc
            t.done = True
            self.changed()
            if self.stop:
                return
            if self.error is not None:
                nxt = self.main
            else:
                nxt = self.pick()
                if nxt is None:
                    self.error = Stuck('every process waits')
                    nxt = self.main
            self.current = nxt
            nxt.go.release()
        self.tasks.append(t)
        t.thread = threading.Thread(target=run, daemon=True)
        t.thread.start()
        self.changed()
        return t

    def close(self):
        self.stop = True
        for t in self.tasks[1:]:
            t.go.release()
        for t in self.tasks[1:]:
            t.thread.join(20)

    # --- the multiprocessing module
    def module(self):
        s = self

        class Value:
            def __init__(self, kind, value=0, lock=True):
                if kind not in ('i', 'b', 'l', 'q', 'L', 'I'):
                    raise OutsideContract('shared value of kind %r' % kind)
                self._v, self._lock = value, Lock()

            @property
            def value(self):
                s.point()
                return self._v

            @value.setter
            def value(self, v):
                s.point()
                if int(v) != int(self._v):
                    s.changed()
                self._v = int(v)

            def get_lock(self):
                return self._lock

        class Lock:
            def __init__(self):
                self.owner = None

            def acquire(self, block=True, timeout=None):
                if not block or timeout is not None:
                    raise OutsideContract('lock with timeout')
                s.point(lambda t: self.owner is None or (self.owner is t and self.again))
                self.owner = s.current
                return True
            again = False

            def release(self):
                self.owner = None
                s.changed()
                s.point()

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.owner = None
                s.changed()
                return False

        class Queue:
            def __init__(self, maxsize=0):
                self.items, self.max = [], maxsize

            def put(self, x, block=True, timeout=None):
                if not block or timeout is not None:
                    raise OutsideContract('put with timeout')
                s.point(lambda t: self.max <= 0 or len(self.items) < self.max)
                self.items.append(ship(x))
                s.changed()

            def get(self, block=True, timeout=None):
                if not block:
                    s.point()
                    if not self.items:
                        raise queue.Empty()
                elif timeout is not None:
                    can = s.poll()
                    s.point()
                    s.point(lambda t: bool(self.items) or can(t))
                    if not self.items:
                        raise queue.Empty()
                else:
                    s.point(lambda t: bool(self.items))
                s.changed()
                return self.items.pop(0)

            def get_nowait(self):
                return self.get(False)

            def put_nowait(self, x):
                s.point()
                if self.max > 0 and len(self.items) >= self.max:
                    raise queue.Full()
                self.items.append(ship(x))
                s.changed()

            def empty(self):
                s.point()
                return not self.items

            def full(self):
                s.point()
                return self.max > 0 and len(self.items) >= self.max

            def qsize(self):
                s.point()
                return len(self.items)

        class Process:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs, self.daemon, self.task = target, args, kwargs or {}, daemon, None
                s.created.append(self)

            def start(self):
                self.task = s.start(self.target, self.args, self.kwargs)

            def join(self, timeout=None):
                pass

            def terminate(self):
                pass

            def is_alive(self):
                return self.task is not None and not self.task.done

        return Obj(Value=Value, Lock=Lock, RLock=Lock, Process=Process, Queue=Queue, Manager=lambda: Obj(Queue=Queue, Lock=Lock, list=list),
                   Event=None, current_process=lambda: Obj(name=s.current.name))

    def sleep(self, t):
        can = self.poll()
        self.point(lambda task: can(task))


def ship(x):
    """a value as the receiving process sees it: its own copy"""
    if isinstance(x, (list, tuple)):
        return type(x)([ship(v) for v in x])
    if isinstance(x, dict):
        return {k: ship(v) for k, v in x.items()}
    if hasattr(x, 'copy') and hasattr(x, 'shape') and getattr(x, 'shape') != ():
        return x.copy()
    return x
