"""Stateless explorer: depth-first search over all choice sequences of a function, re-running it for each one."""
import signal


class Chooser(object):
    def __init__(self, prefix=(), horizon=None):
        self.prefix = list(prefix)
        self.trace = []            # (alternative taken, number of alternatives)
        self.diverged = False
        self.horizon = horizon     # choice points after this many always take alternative 0
        self.capped = False

    def choose(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                self.diverged = True
                c = 0
        else:
            c = 0
            if self.horizon is not None and i >= self.horizon:
                self.capped = True
        self.trace.append((c, n))
        return c


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.points = 0
        self.maxdepth = 0
        self.diverged = 0
        self.capped = 0
        self.bounded = 0


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


class limit(object):
    """Wall-clock limit for one call into the library (a hang is reported, not waited for)."""

    def __init__(self, secs=60):
        self.secs = secs

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        self.prev = signal.setitimer(signal.ITIMER_REAL, self.secs)[0]
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, self.prev)
        signal.signal(signal.SIGALRM, self.old)


def explore(fn, deviations=None, horizon=None, max_executions=None, stats=None, root=()):
    """Run fn(chooser) for every choice sequence (within the bounds) below the prefix `root`.

    deviations: how many non-default alternatives a sequence may contain; horizon: only the first `horizon` choice
    points branch.  Yields (choice list, result of fn).  What a bound cut off is counted in stats.
    """
    st = stats if stats is not None else Stats()
    stack = [list(root)]
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, horizon)
        res = fn(ch)
        st.executions += 1
        st.points += len(ch.trace)
        st.maxdepth = max(st.maxdepth, len(ch.trace))
        if ch.diverged or len(ch.trace) < len(prefix):
            st.diverged += 1
        if ch.capped:
            st.capped += 1
        taken = [c for c, _ in ch.trace]
        yield taken, res
        if max_executions is not None and st.executions >= max_executions:
            st.bounded += len(stack)
            return
        if ch.diverged:
            continue
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            n = ch.trace[i][1]
            if n < 2 or (horizon is not None and i >= horizon):
                continue
            if deviations is not None and sum(1 for c in taken[:i] if c) + 1 > deviations:
                st.bounded += n - 1
                continue
            for alt in range(n - 1, 0, -1):
                stack.append(taken[:i] + [alt])
