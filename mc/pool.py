"""A process pool under a controlled schedule: which worker takes which task and in which order they complete are choices.

Tasks are pickled one by one when submitted, as the real pool does; every worker is a forked process that runs its
tasks in submission order, so whatever it keeps in memory (globals, class attributes, generator states) is shared by
the tasks of one worker and by nothing else.
"""
import contextlib
import concurrent.futures
from concurrent.futures.process import BrokenProcessPool
import hashlib
import multiprocessing
import os
import pickle
import signal
import sys
import threading
import traceback

from . import rnd


def child(blobs, init):
    """Run the pickled tasks in a forked process; returns [(ok, value or error text)]."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = []
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            os.close(r)
            if init:
                init[0](*init[1])
            for b in blobs:
                try:
                    fn, a, k = pickle.loads(b)
                    out.append((True, pickle.dumps(fn(*a, **k))))
                except Exception:
                    out.append((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            os._exit(1)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return [(False, "the worker process died")] * len(blobs)
    return pickle.loads(data)


class WorkerError(Exception):
    pass


class _Condition(threading.Condition):
    """Taking hold of a future in order to wait for it runs what was submitted."""

    def __init__(self, ex):
        threading.Condition.__init__(self)
        self._ex = ex
        lock = self._lock

        def acquire(*a, **k):
            ex.flush()
            return lock.acquire(*a, **k)
        self.acquire = acquire


class Future(concurrent.futures.Future):
    def __init__(self, ex):
        concurrent.futures.Future.__init__(self)
        self._ex = ex
        self._condition = _Condition(ex)

    def result(self, timeout=None):
        self._ex.flush()
        return concurrent.futures.Future.result(self, timeout)

    def exception(self, timeout=None):
        self._ex.flush()
        return concurrent.futures.Future.exception(self, timeout)

    def done(self):
        self._ex.flush()
        return concurrent.futures.Future.done(self)


def _chunk(fn, calls):
    return [fn(*a) for a in calls]


class FakeExecutor(object):
    chooser = None
    memo = None
    widths = None          # max_workers of every pool
    tasks_run = 0
    order = None           # futures in the order in which they completed
    faulty = None          # (task, "error" or "broken"): that task fails, or its process dies and the pool with it

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.workers = max_workers if max_workers is not None else (os.cpu_count() or 1)
        FakeExecutor.widths.append(self.workers)
        self.init = (initializer, initargs) if initializer else None
        self.queue = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False

    def pack(self, fn, a, k):
        return pickle.dumps((fn, a, k))

    def submit(self, fn, *a, **k):
        f = Future(self)
        self.queue.append((f, self.pack(fn, a, k)))
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        calls = list(zip(*its))
        if chunksize <= 1:
            fs = [self.submit(fn, *a) for a in calls]
            return (f.result() for f in fs)
        fs = [self.submit(_chunk, fn, calls[i:i + chunksize]) for i in range(0, len(calls), chunksize)]
        return (r for f in fs for r in f.result())

    def shutdown(self, wait=True, **kw):
        self.flush()

    def run(self, q):
        """Runs the tasks and returns their results and the order in which they complete."""
        ch = FakeExecutor.chooser
        lists = []
        for i in range(len(q)):
            n = len(lists) + (1 if len(lists) < self.workers else 0)
            w = ch.choose(n) if n > 1 else 0
            if w == len(lists):
                lists.append([])
            lists[w].append(i)
        res = {}
        for l in lists:
            blobs = [q[i][1] for i in l]
            key = hashlib.sha1(b"|".join(blobs)).digest()
            if key not in FakeExecutor.memo:
                FakeExecutor.memo[key] = child(blobs, self.init)
                FakeExecutor.tasks_run += len(blobs)
            for i, r in zip(l, FakeExecutor.memo[key]):
                res[i] = r
        pend = [list(l) for l in lists]
        order = []
        while pend:
            w = ch.choose(len(pend)) if len(pend) > 1 else 0
            order.append(pend[w].pop(0))
            if not pend[w]:
                del pend[w]
        out = {i: (ok, pickle.loads(v) if ok else WorkerError(v)) for i, (ok, v) in res.items()}
        if FakeExecutor.faulty is not None and FakeExecutor.faulty[0] in out:
            at, how = FakeExecutor.faulty
            for i in [at] if how == "error" else order[order.index(at):]:
                out[i] = (False, WorkerError("injected") if how == "error" else BrokenProcessPool("a process died"))
        return out, order

    def flush(self):
        q, self.queue = self.queue, []
        if not q:
            return
        res, order = self.run(q)
        for i in order:
            ok, v = res[i]
            FakeExecutor.order.append(q[i][0])
            if ok:
                q[i][0].set_result(v)
            else:
                q[i][0].set_exception(v)


class FakeThreads(FakeExecutor):
    """A pool of threads: tasks share everything, and may be preempted at every line of the watched files."""
    WATCHED = (os.sep + "optimizers" + os.sep, os.sep + "estimators" + os.sep + "structure_", os.sep + "utility" + os.sep + "cache")
    used = 0
    preempt = True

    def pack(self, fn, a, k):
        return (fn, a, k)

    def run(self, q):
        FakeThreads.used += 1
        ch = FakeExecutor.chooser
        res, order, waiting, live, sems = {}, [], list(range(len(q))), [], {}
        end = threading.Semaphore(0)

        def start():
            while waiting and len(live) < self.workers:
                i = waiting.pop(0)
                sems[i] = threading.Semaphore(0)
                live.append(i)
                threading.Thread(target=body, args=(i,), daemon=True).start()

        def switch(i):
            n = len(live)
            if n > 1 and FakeThreads.preempt:
                c = ch.choose(n)
                if c:
                    j = [x for x in live if x != i][c - 1]
                    sems[j].release()
                    sems[i].acquire()

        def body(i):
            sems[i].acquire()

            def local(frame, event, arg):
                if event == "line":
                    switch(i)
                return local

            def trace(frame, event, arg):
                f = frame.f_code.co_filename
                if "PyCTBN" in f and any(w in f for w in self.WATCHED):
                    return local
                return None
            if FakeThreads.preempt:
                sys.settrace(trace)
            try:
                fn, a, k = q[i][1]
                res[i] = (True, fn(*a, **k))
            except BaseException as e:
                res[i] = (False, WorkerError(traceback.format_exc()) if isinstance(e, Exception) else e)
            sys.settrace(None)
            order.append(i)
            live.remove(i)
            start()
            if live:
                sems[live[ch.choose(len(live)) if len(live) > 1 else 0]].release()
            else:
                end.release()
        start()
        sems[live[ch.choose(len(live)) if len(live) > 1 else 0]].release()
        end.acquire()
        return res, order


class FakePool(FakeExecutor):
    """multiprocessing.Pool on the same workers."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        FakeExecutor.__init__(self, processes, None, initializer, initargs)

    def map(self, fn, it, chunksize=None):
        return [f.result() for f in [self.submit(fn, x) for x in it]]

    def starmap(self, fn, it, chunksize=None):
        return [f.result() for f in [self.submit(fn, *x) for x in it]]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        fs = [self.submit(fn, x) for x in it]
        return (f.result() for f in as_completed(fs))

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        f = self.submit(fn, *args, **kwds)
        f.get = f.result
        if callback:
            f.add_done_callback(lambda x: callback(x.result()))
        return f

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._all([self.submit(fn, x) for x in it])

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._all([self.submit(fn, *x) for x in it])

    def _all(self, fs):
        class Result(object):
            def get(self, timeout=None):
                return [f.result() for f in fs]

            def wait(self, timeout=None):
                self.get()
        return Result()

    def apply(self, fn, args=(), kwds={}):
        return self.submit(fn, *args, **kwds).result()

    def close(self):
        self.flush()

    join = terminate = close


def as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f.done()
    return iter(sorted(set(fs), key=FakeExecutor.order.index))


@contextlib.contextmanager
def schedule(chooser, memo, cpus=None):
    """Run the body with every process pool under control of the chooser; yields the widths of the pools it opened."""
    FakeExecutor.chooser, FakeExecutor.memo, FakeExecutor.widths, FakeExecutor.order = chooser, memo, [], []
    new = [(concurrent.futures, "ProcessPoolExecutor", FakeExecutor), (concurrent.futures, "ThreadPoolExecutor", FakeThreads),
           (concurrent.futures, "as_completed", as_completed), (multiprocessing, "Pool", FakePool)]
    if cpus is not None:
        new += [(multiprocessing, "cpu_count", lambda: cpus), (os, "cpu_count", lambda: cpus)]
    by = {getattr(m, n): v for m, n, v in new}
    mods = [m for k, m in list(sys.modules.items()) if k.startswith("PyCTBN") and m is not None]
    old = [(m, n, getattr(m, n), v) for m, n, v in new]
    for m in mods:
        for n, v in list(vars(m).items()):
            try:
                if v in by:
                    old.append((m, n, v, by[v]))
            except TypeError:
                pass
    for m, n, _, v in old:
        setattr(m, n, v)
    try:
        yield FakeExecutor.widths
    finally:
        for m, n, v, _ in old:
            setattr(m, n, v)


class NoMemo(dict):
    """For tasks whose results depend on more than their arguments (a random generator inherited at the fork)."""

    def __contains__(self, key):
        return False


class Constant(object):
    """Random draws that depend on nothing: always the same alternative (or the last there is)."""

    def __init__(self, k):
        self.k = k

    def choose(self, n):
        return min(self.k, n - 1)
