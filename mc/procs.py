"""multiprocessing.Process and Manager under a controlled schedule.

A process is really forked when it is started, so it has its own copy of everything (generator states included).
Every operation it makes on an object of the manager is sent to the parent and waits there; whenever the parent joins
a process, or itself uses a shared object, the explorer chooses which waiting operation takes effect next.
"""
import contextlib
import multiprocessing
import os
import pickle
import queue
import signal
import struct
import sys
import traceback
import types

CURRENT = None        # the World of this process (parent side)
ME = None             # in a child: its (read fd, write fd)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(take(struct.unpack("<Q", take(8))[0]))


class World(object):
    def __init__(self, chooser):
        self.ch = chooser
        self.objs = []
        self.live = []
        self.log = []
        self.started = 0
        self.faulty = None      # (process, n): that process is killed after n operations on shared objects

    def perform(self, i, name, a, k):
        self.log.append((i, name))
        try:
            return True, getattr(self.objs[i], name)(*a, **k)
        except Exception as e:
            return False, e

    def pending(self):
        """Let every live process run to its next shared operation or its end; returns those that wait."""
        for p in list(self.live):
            if p._msg is None:
                try:
                    p._msg = _recv(p._r)
                except EOFError:
                    p._msg = ("end", 1, "killed")
                if self.faulty == (p._no, p._ops):
                    os.kill(p.pid, signal.SIGKILL)
                    p._msg = ("end", -signal.SIGKILL, "killed")
                    self.faulty = None
                p._ops += 1
            if p._msg[0] == "end":
                self.live.remove(p)
                p.exitcode = p._msg[1]
                p._error = p._msg[2]
                os.close(p._r)
                os.close(p._w)
                os.waitpid(p.pid, 0)
        return list(self.live)

    def blocked(self, i, name, a, k):
        """A get on an empty queue or a request for a lock that is taken waits, unless told not to."""
        o = self.objs[i]
        if not (name == "get" and isinstance(o, _Queue)) and not (name == "acquire" and isinstance(o, _Lock)):
            return False
        wait = a[0] if a else k.get("block", k.get("blocking", True))
        if not wait or len(a) > 1 or k.get("timeout") is not None:
            return False
        return not o.items if name == "get" else o.held > 0

    def ready(self):
        """The waiting processes whose next operation can take effect."""
        return [p for p in self.pending() if not self.blocked(*p._msg[1:])]

    def step(self, p):
        _, i, name, a, k = p._msg
        p._msg = None
        _send(p._w, self.perform(i, name, a, k))

    def parent_op(self, i, name, a, k):
        while True:
            ps = self.ready()
            if self.blocked(i, name, a, k):
                if not ps:
                    raise RuntimeError("deadlock: everything waits for %s" % name)
                self.step(ps[self.ch.choose(len(ps)) if len(ps) > 1 else 0])
                continue
            c = self.ch.choose(1 + len(ps)) if ps else 0
            if c == 0:
                ok, v = self.perform(i, name, a, k)
                if not ok:
                    raise v
                return v
            self.step(ps[c - 1])

    def join(self, p, timed=False):
        """timed: the time may run out before the process ends"""
        while True:
            ps = self.pending()
            if p not in ps:
                return
            ps = self.ready()
            if not ps:
                raise RuntimeError("deadlock: every process waits for another")
            k = len(ps) + (1 if timed else 0)
            c = self.ch.choose(k) if k > 1 else 0
            if c == len(ps):
                return
            self.step(ps[c])

    def poll(self, p):
        """asked whether p is alive: some other process may have moved on in the meantime"""
        ps = self.ready()
        if p in self.pending() and ps:
            c = self.ch.choose(len(ps) + 1)
            if c < len(ps):
                self.step(ps[c])
        return p in self.pending()

    def close(self):
        for p in self.live:
            try:
                os.kill(p.pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(p._r)
            os.close(p._w)
            os.waitpid(p.pid, 0)
        self.live = []


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name, self.daemon = name, daemon
        self.exitcode = self.pid = self._msg = self._error = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        global ME
        w = CURRENT
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code, err = 0, None
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                os.close(r1)
                os.close(w2)
                ME = (r2, w1)
                try:
                    self.run()
                except SystemExit as e:
                    code = e.code or 0
                except BaseException:
                    code, err = 1, traceback.format_exc()
                _send(w1, ("end", code, err))
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.pid, self._r, self._w = pid, r1, w2
        self._no, self._ops = w.started, 0
        w.live.append(self)
        w.started += 1

    def join(self, timeout=None):
        CURRENT.join(self, timeout is not None)

    def is_alive(self):
        return CURRENT.poll(self)

    def terminate(self):
        pass

    kill = close = terminate


class _Queue(object):
    def __init__(self, *a):
        self.items = []

    def put(self, x, *a, **k):
        self.items.append(x)

    put_nowait = put

    def get(self, *a, **k):
        if not self.items:
            raise queue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get()

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)


class _Lock(object):
    held = 0

    def acquire(self, *a, **k):
        if self.held:
            return False
        self.held = 1
        return True

    def release(self):
        if not self.held:
            raise ValueError("semaphore or lock released too many times")
        self.held = 0


class _Value(object):
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Shared(object):
    def __init__(self, i):
        self._i = i

    def _op(self, name, *a, **k):
        if ME is not None:
            _send(ME[1], ("op", self._i, name, a, k))
            ok, v = _recv(ME[0])
            if not ok:
                raise v
            return v
        return CURRENT.parent_op(self._i, name, a, k)


def _proxy(names):
    d = {}
    for n in names:
        def f(self, *a, __n=n, **k):
            return self._op(__n, *a, **k)
        d[n] = f
    return type("SharedObject", (Shared,), d)


SharedList = _proxy(["append", "extend", "insert", "pop", "remove", "reverse", "sort", "count", "index", "clear", "copy",
                     "__len__", "__getitem__", "__setitem__", "__delitem__", "__contains__", "__add__", "__mul__"])


def _iter(self):
    return iter(self[:])


def _iadd(self, o):
    self.extend(list(o))
    return self


SharedList.__iter__ = _iter
SharedList.__iadd__ = _iadd
SharedDict = _proxy(["__len__", "__getitem__", "__setitem__", "__delitem__", "__contains__", "get", "pop", "update", "setdefault",
                     "clear", "copy"])
SharedDict.keys = lambda self: self.copy().keys()
SharedDict.values = lambda self: self.copy().values()
SharedDict.items = lambda self: self.copy().items()
SharedDict.__iter__ = lambda self: iter(self.copy())


SharedQueue = _proxy(["put", "put_nowait", "get", "get_nowait", "empty", "qsize"])
SharedQueue.close = SharedQueue.join_thread = SharedQueue.cancel_join_thread = lambda self: None
SharedLock = _proxy(["acquire", "release"])
SharedLock.__enter__ = lambda self: self.acquire()
SharedLock.__exit__ = lambda self, *a: self.release()
SharedValue = _proxy(["get", "set"])
SharedValue.value = property(lambda self: self.get(), lambda self, v: self.set(v))


def new(cls, obj):
    CURRENT.objs.append(obj)
    return cls(len(CURRENT.objs) - 1)


def Queue(*a, **k):
    return new(SharedQueue, _Queue())


SimpleQueue = JoinableQueue = Queue


def Lock(*a, **k):
    return new(SharedLock, _Lock())


class Manager(object):
    def __init__(self, *a, **k):
        pass

    def _new(self, cls, obj):
        return new(cls, obj)

    Queue = staticmethod(Queue)
    Lock = staticmethod(Lock)

    def Value(self, kind, v):
        return new(SharedValue, _Value(v))

    def list(self, init=()):
        return self._new(SharedList, list(init))

    def dict(self, *a, **k):
        return self._new(SharedDict, dict(*a, **k))

    def start(self, *a):
        pass

    shutdown = start

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Context(object):
    """What get_context() returns: the stand-ins, and the real module for everything else."""

    def __getattr__(self, name):
        return getattr(multiprocessing, name)


_context = _Context()


@contextlib.contextmanager
def world(chooser):
    """Replace Process, Manager and the shared objects wherever the library refers to them."""
    global CURRENT
    new = {"Process": Process, "Manager": Manager, "Queue": Queue, "SimpleQueue": SimpleQueue, "JoinableQueue": Queue, "Lock": Lock,
           "get_context": lambda *a: _context}
    real = {n: getattr(multiprocessing, n) for n in new}
    old = []
    for k, m in list(sys.modules.items()):
        if k.startswith("PyCTBN") and m is not None:
            for n, v in list(vars(m).items()):
                for r in new:
                    if v is real[r] or (isinstance(v, types.MethodType) and v == real[r]):
                        old.append((m, n, v, new[r]))
    old += [(multiprocessing, n, real[n], new[n]) for n in new]
    CURRENT = World(chooser)
    for m, n, v, stand_in in old:
        setattr(m, n, stand_in)
    try:
        yield CURRENT
    finally:
        CURRENT.close()
        for m, n, v, stand_in in old:
            setattr(m, n, v)
