"""Controlled scheduler: real Python threads of the real code, one running at a time, every switch decided by the explorer.

install() must run before rsfile is imported (it calls envs.install()). Locks of threading / _pyio / multiprocessing, sleeping and
clocks become scheduler operations for controlled threads and behave plainly for all others."""
import _thread
import errno
import fcntl
import gc
import os
import sys
import time

from . import core, envs

_get_ident = _thread.get_ident
_real_lock = _thread.allocate_lock
_real_monotonic = time.monotonic

COSTS1 = [None] + [(0,) + (1,) * (k - 1) for k in range(1, 12)]     # the current thread can go on: switching away costs 1
COSTS0 = [(0,) * k for k in range(12)]                              # it cannot: any enabled thread is free
COSTS0T = [(0,) * k + (1,) for k in range(12)]                      # ... but letting a timer fire before enabled threads run costs 1

ENGINE = None      # the running Execution


class Abort(BaseException):
    """unwinds a controlled thread when its execution is over"""


class Thread:
    __slots__ = ("held", "num", "fn", "sem", "state", "pred", "wake", "timed_out", "ident", "error", "name", "result")

    def __init__(self, num, fn, name):
        self.num, self.fn, self.name = num, fn, name
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = "ready"         # ready / blocked / done
        self.pred = None
        self.wake = None
        self.timed_out = False
        self.ident = None
        self.error = None
        self.result = None
        self.held = 0


class Clock:
    now = 1000.0
    wall = 5_000_000.0     # wall clock = now + wall


class Execution:
    """One execution under a given list of choices (then default choices)."""

    def __init__(self, bodies, prefix, line_files=(), horizon=60000, max_clock=3600.0, opcodes=False, names=None, bound=None,
                 skip_in_mutex=False):
        self.bound = float("inf") if bound is None else bound
        self.spent = 0
        self.skip_in_mutex = skip_in_mutex     # no line points while the thread holds a controlled mutex
        self.threads = [Thread(i, fn, names[i] if names else "T%d" % i) for i, fn in enumerate(bodies)]
        self.prefix = prefix
        self.points = []           # (n options, cost of each option, chosen)
        self.labels = []
        self.current = None
        self.by_ident = {}
        self.done = _real_lock()
        self.done.acquire()
        self.aborting = False
        self.failure = None        # "deadlock: ..." / "livelock"
        self.line_files = tuple(line_files)
        self.codes = {}
        self.steps = 0
        self.horizon = horizon
        self.max_clock = Clock.now + max_clock
        self.kernel_version = 0
        self.opcodes = opcodes
        self.divergence = None

    # -- running -----------------------------------------------------------------------------------------------
    def run(self):
        global ENGINE
        ENGINE = self
        envs.set_hook(self.syscall)
        was = gc.isenabled()
        gc.disable()
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            first = self._choose(None)
            self.current = first
            first.sem.release()
            if not self.done.acquire(True, 50):
                raise core.Stuck("a thread runs forever without any scheduling point")
        finally:
            ENGINE = None
            envs.set_hook(None)
            if was:
                gc.enable()
        if self.divergence:
            raise core.HarnessError("schedule replay diverged: %s" % self.divergence)
        return self

    def _main(self, t):
        t.ident = _get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            if not self.aborting:
                if self.line_files:
                    sys.settrace(self._trace)
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self.by_ident.pop(t.ident, None)
            self._finish(t)

    def _finish(self, t):
        if self.aborting:
            self._abort_next()
            return
        nxt = self._choose(t)
        if nxt is None:
            if self.failure:
                self._start_abort()
                return
            self.done.release()
            return
        self.current = nxt
        nxt.sem.release()

    def _start_abort(self):
        self.aborting = True
        self._abort_next()

    def _abort_next(self):
        for x in self.threads:
            if x.state != "done":
                self.current = x
                x.sem.release()
                return
        self.done.release()

    def _trace(self, frame, event, arg):
        if self.spent >= self.bound:       # no deviation left: source lines are no choices any more
            sys.settrace(None)
            return None
        code = frame.f_code
        want = self.codes.get(code)
        if want is None:
            want = self.codes[code] = code.co_filename.startswith(self.line_files)
        if want:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.spent >= self.bound:
                sys.settrace(None)
                return None
            t = self.current
            if (not t.held or not self.skip_in_mutex) and not self.aborting and t.ident == _get_ident():
                self._switch(t, frame.f_lineno)
        return self._line

    # -- scheduling ----------------------------------------------------------------------------------------------
    def me(self):
        return self.by_ident.get(_get_ident())

    def point(self, label):
        t = self.by_ident.get(_get_ident())
        if t is None or self.aborting or t is not self.current:
            return
        self._switch(t, label)

    def block(self, t, pred, timeout=None):
        """waits until pred() holds; False if the timeout expired first"""
        if self.aborting:
            raise Abort()
        t.state, t.pred, t.timed_out = "blocked", pred, False
        t.wake = None if timeout is None else Clock.now + max(0, timeout)
        self._switch(t, "block")
        res = not t.timed_out
        t.state, t.pred, t.wake = "ready", None, None
        return res

    def _switch(self, t, label):
        self.steps += 1
        if self.spent >= self.bound and t.state == "ready" and self.steps <= self.horizon:
            return
        nxt = self._choose(t, label)
        if nxt is t:
            return
        if nxt is None:              # deadlock / horizon: unwind everybody, this thread first
            self.aborting = True
            raise Abort()
        self.current = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise Abort()

    def _choose(self, cur, label=None):
        if self.steps > self.horizon:
            self.failure = self.failure or "livelock: no end after %d steps" % self.horizon
            return None
        if cur is not None and cur.state == "ready":
            runs = True
        else:
            runs = cur is not None and cur.state == "blocked" and self._ready(cur)
        while True:
            options = [cur] if runs else []
            timer = None
            for x in self.threads:
                st = x.state
                if st == "done" or (x is cur and runs):
                    continue
                if st == "ready" or (x is not cur and self._ready(x)):
                    options.append(x)
                elif x.wake is not None and (timer is None or x.wake < timer.wake):
                    timer = x
            if options:
                break
            if timer is None:
                if any(x.state != "done" for x in self.threads):
                    self.failure = self.failure or "deadlock: " + ", ".join("%s %s" % (x.name, x.state) for x in self.threads)
                return None
            if timer.wake > self.max_clock:
                self.failure = self.failure or "livelock: still waiting at %.1f s" % (self.max_clock - 1000)
                return None
            Clock.now = max(Clock.now, timer.wake)
            if cur is not None and cur.state == "blocked":
                runs = self._ready(cur)
        n = len(options)
        if runs:
            if timer is not None:
                options.append(timer)
                n += 1
            if n == 1:
                return cur
            costs = COSTS1[n]
        else:
            if timer is not None:
                options.append(timer)
                costs = COSTS0T[n]
                n += 1
            else:
                costs = COSTS0[n]
            if n == 1:
                return options[0]
        i = len(self.points)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                self.divergence = "point %d has %d options, %d wanted" % (i, n, c)
                c = 0
        self.points.append((costs, c))
        nxt = options[c]
        if nxt is not cur:
            self.spent += costs[c]
            self.labels.append((cur.name if cur else None, label, nxt.name))
            if nxt.state == "blocked" and not self._ready(nxt):      # a timer chosen early
                Clock.now = max(Clock.now, nxt.wake)
                self._ready(nxt)
        return nxt

    def _ready(self, x):
        if x.pred is not None and x.pred():
            return True
        if x.wake is not None and Clock.now >= x.wake:
            x.timed_out = True
            return True
        return False

    # -- system calls ----------------------------------------------------------------------------------------------
    fault = None       # optional hook: fault(engine, thread, name, real, args, kwargs)

    def syscall(self, name, real, args, kwargs):
        t = self.by_ident.get(_get_ident())
        if t is None or t is not self.current:
            return real(*args, **kwargs)
        if self.aborting:
            if name == "lockf" and not args[1] & (fcntl.LOCK_UN | fcntl.LOCK_NB):
                raise Abort()
            return real(*args, **kwargs)
        tr = sys.gettrace()
        self._switch(t, name)
        if self.fault is not None:
            return self.fault(t, name, real, args, kwargs)
        return self.perform(t, name, real, args, kwargs)

    def perform(self, t, name, real, args, kwargs):
        if name == "lockf":
            return self.lockf(t, real, *args, **kwargs)
        if name in ("close", "fcntl_fcntl", "dup2"):
            self.kernel_version += 1
        return real(*args, **kwargs)

    def lockf(self, t, real, fd, cmd, *rest):
        if cmd & fcntl.LOCK_UN:
            self.kernel_version += 1
            return real(fd, cmd, *rest)
        if cmd & fcntl.LOCK_NB:
            return real(fd, cmd, *rest)
        while True:
            v = self.kernel_version
            try:
                return real(fd, cmd | fcntl.LOCK_NB, *rest)
            except OSError as e:
                if e.errno not in (errno.EAGAIN, errno.EACCES):
                    raise
            self.block(t, lambda: self.kernel_version != v)

    def kernel_changed(self):
        self.kernel_version += 1


# -- replacements ------------------------------------------------------------------------------------------------

class MCLock:
    def __init__(self):
        self._locked = False
        self._real = None

    def acquire(self, blocking=True, timeout=-1):
        e = ENGINE
        t = e.me() if e is not None else None
        if t is None or e.aborting:
            if self._locked and t is None:
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    return False
                raise core.HarnessError("uncontrolled thread would block on a lock")
            if self._locked and t is not None:
                if not blocking:
                    return False
                raise Abort()
            self._locked = True
            return True
        e.point("acquire")
        if self._locked:
            if not blocking:
                return False
            while self._locked:
                if not e.block(t, lambda: not self._locked, None if timeout is None or timeout < 0 else timeout):
                    if self._locked:
                        return False
        self._locked = True
        t.held += 1
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        e = ENGINE
        if e is not None and not e.aborting:
            t = e.me()
            if t is not None and t.held:
                t.held -= 1
            e.point("release")

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class MCRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        e = ENGINE
        t = e.me() if e is not None else None
        if t is None or e.aborting:
            if self._owner is not None and t is None:
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                raise LockedForever("uncontrolled thread would block on a reentrant lock")
            if self._owner is not None:
                if not blocking:
                    return False
                raise Abort()
            self._owner, self._count = me, 1
            return True
        e.point("acquire")
        if self._owner is not None:
            if not blocking:
                return False
            while self._owner is not None:
                if not e.block(t, lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    if self._owner is not None:
                        return False
        self._owner, self._count = me, 1
        t.held += 1
        return True

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            e = ENGINE
            if e is not None and not e.aborting:
                t = e.me()
                if t is not None and t.held:
                    t.held -= 1
                e.point("release")

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        e = ENGINE
        if e is not None and not e.aborting:
            t = e.me()
            if t is not None and t.held:
                t.held -= 1
            e.point("release")
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class LockedForever(core.HarnessError):
    pass


def v_sleep(secs):
    e = ENGINE
    t = e.me() if e is not None else None
    if t is None:
        Clock.now += max(0, secs)
        return
    if e.aborting:
        raise Abort()
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    e.block(t, lambda: False, secs)


def v_monotonic():
    return Clock.now


def v_time():
    return Clock.now + Clock.wall


_installed = False


def install(real_time=False):
    global _installed
    if _installed:
        return
    envs.install()
    import threading
    import multiprocessing
    import multiprocessing.context
    import _pyio
    threading.Lock = MCLock
    threading.RLock = MCRLock
    threading._allocate_lock = MCLock
    _pyio.Lock = MCLock
    multiprocessing.RLock = lambda *a, **k: MCRLock()
    multiprocessing.Lock = lambda *a, **k: MCLock()
    multiprocessing.context.BaseContext.RLock = lambda self: MCRLock()
    multiprocessing.context.BaseContext.Lock = lambda self: MCLock()
    if not real_time:
        time.sleep = v_sleep
        time.monotonic = v_monotonic
        time.perf_counter = v_monotonic
        time.time = v_time
        time.monotonic_ns = lambda: int(Clock.now * 1e9)
        time.time_ns = lambda: int((Clock.now + Clock.wall) * 1e9)
    _installed = True


# -- exploration -------------------------------------------------------------------------------------------------

def explore(ctx, make, bound, line_files=(), shard=(0, 1), on_done=None, cap=None, opcodes=False, horizon=60000, max_clock=3600.0,
            skip_in_mutex=False):
    """Depth-first search over all schedules with at most `bound` deviations (preemptions, or timers firing early).

    make() -> (bodies, check, names): fresh world; check(execution) -> None or a problem string, must clean the world up."""
    k, n = shard
    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        if cap is not None and count >= cap:
            ctx.stats["capped"] = 1
            break
        bodies, check, names = make()
        Clock.now = 1000.0
        x = Execution(bodies, prefix, line_files, names=names, opcodes=opcodes, horizon=horizon, max_clock=max_clock, bound=bound,
                      skip_in_mutex=skip_in_mutex)
        x.run()
        count += 1
        problem = x.failure
        p2 = check(x)
        problem = problem or p2
        if k == 0 or x.spent:      # executions without deviation are run by every shard, counted once
            ctx.stats.add("executions")
            ctx.stats.add("transitions", x.steps)
            ctx.stats.add("states", len(x.points) - len(prefix))      # decision points not met by an earlier execution
        if problem:
            on_done(x, problem, [c for _, c in x.points])
            return count
        costs_before = 0
        choices = [c for _, c in x.points]
        for costs, c in x.points[:len(prefix)]:
            costs_before += costs[c]
        new = []
        for i in range(len(prefix), len(x.points)):
            costs, c = x.points[i]
            for alt in range(1, len(costs)):
                if costs_before + costs[alt] <= bound:
                    if costs_before == 0 and costs[alt] > 0 and (i % n) != k:
                        continue
                    new.append(choices[:i] + [alt])
            costs_before += costs[c]
        new.reverse()
        stack.extend(new)
    return count
