"""P07: real forks at every scheduling point of another thread's locking operations, the children checked; real executions of programs."""
import gc
import itertools
import os
import select
import signal
import sys
import warnings

from .. import conc, core, envs, sched
from ..conc import st
from ..envs import R
from ..lockworld import fdset

LEVEL = "model_checking"
RULE = ("all schedules, up to the stated number of preemptions (source lines of rsfile, mutex and system-call points), of threads locking, unlocking, "
        "opening and closing streams, and of a thread that forks; at each fork, each child program is run by a real child process against the lock table "
        "of the parent at that instant; for execution of other programs, every history of openings, closings and lock operations, followed by a real exec")
ASSUMPTIONS = ["a byte that another thread of the parent is locking or unlocking at the instant of the fork may be locked or not",
               "streams that another thread is closing at that instant, and non-thread-safe streams that it is using, are not used by the child",
               "os.fork() is used (the fork hooks of Python run)"]
RANGES = [(0, 2, False), (1, 2, True), (3, 3, False), (0, None, False), (0, None, True), (7, 1, False)]
FAR = 30
NEAR = 20
SLOW = 20

_real_fork = os.fork


class Forks:
    """what the hooks do around the current fork"""
    active = False
    in_parent = None
    engine = None


def before():
    # runs after the hooks of rsfile: no controlled lock operation happens from here on in the child
    if Forks.active:
        Forks.engine, sched.ENGINE = sched.ENGINE, None


def in_child():
    if Forks.active:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(SLOW)
        R.write(Forks.started, b"\n")
        envs.set_hook(None)
        sys.settrace(None)


def in_parent():
    if Forks.active:
        Forks.in_parent()
        sched.ENGINE = Forks.engine


class Fail(Exception):
    pass


class World(conc.World):
    def __init__(self, *a, **k):
        self.running = []
        self.persistent = []
        self.locked_by_child = False
        self.lost = False
        super().__init__(*a, **k)

    def step(self, op):
        self.running.append(op)
        super().step(op)
        self.running.remove(op)

    def step1(self, op):
        if op[0] == "fork":
            for prog in op[1]:
                self.fork(prog)
        elif op[0] == "withfork":
            _, i, start, length, shared = op
            f = self.sc["streams"][i]["path"]
            end = start + length if length else None
            child = None
            self.inflight.append((f, start, end))
            try:
                with self.streams[i].lock_file(length=length, offset=start, shared=shared):
                    self.granted((i, f, start, end, shared))
                    self.inflight.remove((f, start, end))
                    child = self.fork_raw()
                    if child:
                        self.check_held()
                        self.inflight.append((f, start, end))
                        self.release(i, (start, end))
            except RuntimeError as e:
                if child != 0:
                    raise
            if child == 0:
                self.child_end(lambda: self.c_afterwith((i, f, start, end, shared)))
            self.inflight.remove((f, start, end))
            self.check_exact()
        else:
            super().step1(op)

    # -- forking ---------------------------------------------------------------------------------------------------
    def fork_raw(self, persistent=False):
        """real fork; 0 in the child. In the parent, returns once the child has reported."""
        e = sched.ENGINE
        e.point("fork")
        if self.problem:
            return -1
        r, w = os.pipe()
        go_r, go_w = os.pipe()
        self.report, self.go, self.pipes = w, go_r, (r, go_w)
        box = {}

        def parent():
            R.close(w)
            R.close(go_r)
            if select.select([r], [], [], SLOW)[0]:
                R.read(r, 1)        # Python runs in the child
                box["msg"] = self.read_report(r)
            else:
                box["msg"] = "ok, never ran"
        Forks.started = w
        Forks.active, Forks.in_parent = True, parent
        me = os.getpid()
        try:
            pid = _real_fork()
            if pid == 0:
                Forks.active = False
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                R.close(r)
                R.close(go_w)
                return 0
        except BaseException as x:
            if os.getpid() != me:
                self.child_end(lambda: self.fail("fork hooks: %r" % x))
            raise
        finally:
            Forks.active = False
        if box.get("msg") == "ok, never ran":       # the interpreter hung, in its own part of fork()
            os.kill(pid, signal.SIGKILL)
            self.lost = True
            self.bad("child process lost")
        if "msg" not in box:
            raise core.HarnessError("fork hooks not run")
        if persistent:
            self.persistent.append((pid, r, go_w))
        else:
            self.reap(pid, r, go_w)
        self.ctx.stats.add("children")
        if persistent:
            self.locked_by_child = box["msg"] == "ok, locked"
        if not box["msg"].startswith("ok"):
            self.bad("forked child: " + (box["msg"] or "hung or died"))
        self.check_held()
        return pid

    @staticmethod
    def fail(text):
        raise Fail(text)

    def reap(self, pid, r, go_w):
        R.close(r)
        R.close(go_w)
        os.waitpid(pid, 0)

    @staticmethod
    def read_report(r):
        data = b""
        while not data.endswith(b"\n"):
            d = R.read(r, 4096)
            if not d:
                return data.decode()
            data += d
        return data.decode().strip()

    def child_end(self, fn):
        """runs in the child; never returns"""
        try:
            self.tell_parent(fn)
        finally:
            os._exit(0)

    def tell_parent(self, fn):
        try:
            msg = fn() or "ok"
        except sched.LockedForever as e:
            msg = "hangs forever: " + self.where(e)
        except Fail as e:
            msg = str(e)
        except core.HarnessError as e:
            msg = "hangs forever: " + self.where(e) if "would block" in str(e) else repr(e)
        except BaseException as e:
            msg = "unexpected %r %s" % (e, self.where(e))
        R.write(self.report, msg.replace("\n", " ").encode()[:3000] + b"\n")
        return msg

    @staticmethod
    def where(e):
        tb = e.__traceback__
        res = []
        while tb is not None:
            res.append("%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))
            tb = tb.tb_next
        return " > ".join(res[-6:])

    def fork(self, prog):
        if self.problem:
            return
        persistent = prog == "persist"
        if self.fork_raw(persistent) == 0:
            if not persistent:
                self.child_end(getattr(self, "c_" + prog))
            try:
                if self.tell_parent(self.c_persist).startswith("ok"):
                    signal.alarm(60)
                    if R.read(self.go, 1):
                        signal.alarm(SLOW)
                        self.tell_parent(self.c_persist2)
            finally:
                os._exit(0)
        if persistent and self.locked_by_child and not self.problem and self.foreign["a"].seen(FAR, FAR + 1) != "W":
            self.bad("the lock taken by a forked child isn't seen by other processes")

    # -- child side ------------------------------------------------------------------------------------------------
    def usable(self):
        busy = {op[1]: op[0] for op in self.running if len(op) > 1 and isinstance(op[1], int) and op[0] not in ("fork",)}
        busy.pop(None, None)
        res = []
        for i, s in enumerate(self.streams):
            if s is None:
                continue
            if i in busy:
                if busy[i] in ("close", "drop", "open") or self.sc["streams"][i]["layer"] in ("buf",):
                    continue
            res.append((i, s))
        return res

    def quiet(self):
        return not any(op[0] in ("open", "close", "drop") for op in self.running)

    def expect(self, f, a, b, sh):
        others = self.inflight
        if self.locked_by_child and f == "a" and self.overlap(a, b, FAR, FAR + 1):
            return "refused"
        for (j, g, c, d, sh2) in self.held:
            if g == f and self.overlap(a, b, c, d) and not (sh and sh2):
                return "refused"
        for (g, c, d, sh2) in self.flocks:
            if g == f and self.overlap(a, b, c, d) and not (sh and sh2):
                return "refused"
        for (g, c, d) in others:
            if g == f and self.overlap(a, b, c, d):
                return "any"
        return "granted"

    def attempt(self, i, s, f, start, length, sh, keep=False):
        end = start + length if length else None
        want = self.expect(f, start, end, sh)
        what = "lock of [%s, %s) %s through %s" % (start, end, "shared" if sh else "exclusive", "stream %d" % i if i is not None else "a new stream")
        try:
            s.lock_file(timeout=0, length=length, offset=start, shared=sh)
        except self.rsfile.LockingException:
            if want == "granted":
                raise Fail("%s refused, though the parent holds %r" % (what, self.held))
            return False
        if want == "refused":
            raise Fail("%s granted, though the parent holds %r" % (what, self.held))
        if not keep:
            s.unlock_file(length=length, offset=start)
        return True

    def parent_locks(self):
        self.problem = None
        self.check_held()
        if self.problem:
            raise Fail("parent's lock lost: " + self.problem)

    def c_try(self):
        for i, s in self.usable():
            for start, length, sh in RANGES:
                self.attempt(i, s, self.sc["streams"][i]["path"], start, length, sh)
        self.parent_locks()
        n = self.rsfile.rsopen(self.paths["a"], "RWB", buffering=0, locking=False, thread_safe=False)
        for start, length, sh in RANGES:
            self.attempt(None, n, "a", start, length, sh)
        n.close()
        self.parent_locks()

    def c_unlock(self):
        ranges = {(c, d) for (_, _, c, d, _) in self.held} | {(c, d) for (_, c, d) in self.inflight} | {(0, None)}
        for i, s in self.usable():
            for c, d in sorted(ranges, key=str):
                try:
                    s.unlock_file(length=None if d is None else d - c, offset=c)
                except RuntimeError:
                    continue
                raise Fail("unlocking [%s, %s), locked by the parent, succeeded" % (c, d))
        self.parent_locks()

    def fds(self, what):
        if not self.quiet():
            return
        want = self.fdbase | set(self.dups) | {self.report, self.go}
        for p in self.persistent:
            want |= set(p[1:])
        got = set(fdset())
        if got != want:
            raise Fail("after %s, descriptors %r remain, %r are missing" % (what, sorted(got - want), sorted(want - got)))

    def c_close(self):
        left = len(self.usable()) < len([s for s in self.streams if s is not None])
        for i, s in self.usable():
            s.close()
            if not s.closed:
                raise Fail("stream %d not closed" % i)
            self.parent_locks()
        if not left:
            self.fds("closing all streams in the child")
        n = self.rsfile.rsopen(self.paths["a"], "RWB", buffering=0, locking=False, thread_safe=False)
        for start, length, sh in RANGES:
            self.attempt(None, n, "a", start, length, sh)
        n.close()
        self.parent_locks()

    def c_drop(self):
        self.streams = [None] * len(self.streams)
        gc.collect()
        self.parent_locks()
        if all(op[0] == "fork" for op in self.running):
            self.fds("losing all streams in the child")

    def c_block(self):
        """blocking requests on free ranges"""
        for i, s in self.usable():
            f = self.sc["streams"][i]["path"]
            for start, length, sh in [(FAR, 2, False), (FAR + 5, None, False), (2, 1, True)]:
                if self.expect(f, start, start + length if length else None, sh) == "granted":
                    with s.lock_file(length=length, offset=start, shared=sh):
                        pass
        n = self.rsfile.rsopen(self.paths["a"], "RWB", locking=False)
        if self.expect("a", FAR, FAR + 1, False) == "granted":
            n.lock_file(offset=FAR, length=1)
        n.close()
        self.parent_locks()

    def c_use(self):
        """other operations on inherited streams"""
        for i, s in self.usable():
            s.seek(0)
            s.read(1)
            s.tell()
            s.flush()
            s.size()
            s.unique_id()
        self.parent_locks()

    def c_afterwith(self, rec):
        i, f, a, b, sh = rec
        self.parent_locks()
        for start, length, shared in RANGES:
            self.attempt(i, self.streams[i], f, start, length, shared)
        self.parent_locks()

    def c_grand(self):
        us = self.usable()
        if not us or self.expect("a", NEAR, NEAR + 1, False) != "granted":
            return
        i, s = us[0]
        if self.sc["streams"][i]["path"] != "a":
            return
        s.lock_file(timeout=0, offset=NEAR, length=1, shared=False)
        r, w = os.pipe()
        pid = _real_fork()
        if pid == 0:
            signal.alarm(SLOW)
            self.report = w
            self.held.append((99, "a", NEAR, NEAR + 1, False))

            def grand():
                try:
                    s.unlock_file(offset=NEAR, length=1)
                except RuntimeError:
                    pass
                else:
                    raise Fail("the child of a child unlocked a lock of its parent")
                for j, t in us:
                    self.attempt(j, t, self.sc["streams"][j]["path"], NEAR, 1, False)
                for j, t in us:
                    t.close()
            self.child_end(grand)
        R.close(w)
        msg = self.read_report(r)
        os.waitpid(pid, 0)
        if msg != "ok":
            raise Fail("child of the child: " + (msg or "hung or died"))
        if self.foreign["a"].seen(NEAR, NEAR + 1) != "W":
            raise Fail("the lock of a child was lost when its own child closed its streams")
        s.unlock_file(offset=NEAR, length=1)
        if self.foreign["a"].seen(NEAR, NEAR + 1):
            raise Fail("a child's lock survives its unlocking")

    def c_persist(self):
        self.mine = []
        for i, s in self.usable():
            if self.nolock() or self.expect("a", FAR, FAR + 1, False) != "granted":
                break
            if self.sc["streams"][i]["path"] == "a":
                s.lock_file(timeout=0, offset=FAR, length=1, shared=False)
                self.mine.append(s)
                break
        self.parent_locks()
        return "ok, locked" if self.mine else "ok"

    def nolock(self):
        """a thread of the parent will wait for the whole file"""
        return any(op[0] in ("lock", "with") and op[3] is None for p in self.sc["threads"] for op in p) or \
            any(t["locking"] for t in self.sc["streams"])

    def c_persist2(self):
        """the parent has released and closed everything"""
        self.held, self.flocks, self.inflight = [], [], []
        streams = self.usable()
        for i, s in streams:
            for start, length, sh in RANGES[:3] + [(NEAR, 5, False)]:
                self.attempt(i, s, self.sc["streams"][i]["path"], start, length, sh)
        for s in self.mine:
            s.unlock_file(offset=FAR, length=1)
        for i, s in streams:
            self.attempt(i, s, self.sc["streams"][i]["path"], 0, None, False)
        for i, s in streams:
            s.close()

    # -- end ---------------------------------------------------------------------------------------------------------
    def finish(self, x):
        if self.persistent:
            for i, s in enumerate(self.streams):
                if s is not None:
                    try:
                        s.close()
                    except Exception as e:
                        self.problem = self.problem or "closing stream %d at the end: %r" % (i, e)
                    self.streams[i] = None
            for fo in self.foreign.values():
                fo.unlock()
            for pid, r, go_w in self.persistent:
                if not (self.problem or x.failure):
                    R.write(go_w, b"g")
                    msg = self.read_report(r)
                    if msg != "ok":
                        self.problem = "forked child, once the parent had released everything: " + (msg or "hung or died")
                self.reap(pid, r, go_w)
            self.persistent = []
        problem = super().finish(x)
        if self.lost:
            raise core.Stuck("a child process never ran")
        return problem


# -- scenarios -----------------------------------------------------------------------------------------------------

QUICKKIDS = ["try", "unlock", "close", "drop", "block", "use", "grand"]


def scenarios():
    S = []

    def sc(name, threads, streams, files=("a",)):
        S.append(dict(name=name, threads=threads, streams=streams, files=files))
    kids = [("fork", ["try", "close"]), ("fork", ["unlock", "drop", "block"])]
    L, U, W = "lock", "unlock", "with"
    k1, k2, k3, k4 = [("fork", ["try", "unlock"])], [("fork", ["close", "block"])], [("fork", ["persist", "grand", "drop"])], [("fork", ["use", "close"])]
    base = {
        "lock-unlock": ([(L, 0, 0, 2, False), (U, 0, 0, 2)], [st(), st()]),
        "lock-close": ([(L, 0, 0, 2, False), ("close", 0)], [st(), st()]),
        "close-pending": ([(L, 0, 0, 2, True), (L, 2, 4, 1, False), ("close", 2), ("close", 1)], [st(), st(), st()]),
        "with": ([(W, 0, 0, None, False, "exc"), (L, 0, 0, 1, True)], [st(), st()]),
        "try": ([(L, 0, 1, 2, False), ("try", 1, 0, 2, False), ("try", 1, 3, 1, True)], [st(), st()]),
        "safe": ([(L, 0, 0, 2, False), (U, 0, 0, 2), (L, 1, 0, 1, True)], [st(layer="safe"), st(layer="safe")]),
        "safe-close": ([(L, 0, 0, 2, False), ("close", 0)], [st(layer="safe"), st(layer="safe")]),
        "text": ([(L, 0, 0, 2, False), (U, 0, 0, 2)], [st(layer="text", mode="RW"), st()]),
        "open": ([("open", 0), (L, 0, 0, 1, False), ("drop", 0)], [st(opened=False), st()]),
        "open-default": ([("open", 0), ("close", 0)], [st(opened=False, locking=True, layer="safe"), st()]),
        "dup": ([(L, 0, 0, 2, False), (L, 1, 3, 1, False), ("close", 0)], [st(), st(kind="dup", of=0)]),
        "two-files": ([(L, 0, 0, 2, False), (L, 1, 0, 2, True), ("close", 0), (U, 1, 0, 2)], [st(), st(path="b")]),
    }
    for n, (prog, streams) in base.items():
        files = ("a", "b") if n == "two-files" else ("a",)
        for kn, k in (("1", k1), ("2", k2), ("3", k3), ("4", k4)):
            sc("%s/%s" % (n, kn), [prog, k], streams, files)
    # a third thread is kept waiting for a lock during the fork
    for layer in ("raw", "safe", "text"):
        m = "RW" if layer == "text" else "RWB"
        for kn, k in (("1", k1), ("2", k2), ("3", k3), ("4", k4)):
            sc("waiter-%s/%s" % (layer, kn), [[(L, 0, 0, 2, False)] + k + [(U, 0, 0, 2)], [(L, 1, 1, 1, False), ("close", 1)]],
               [st(), st(layer=layer, mode=m)])
    sc("flock-waiter/1", [[("flock", 0, 2, False)] + k1 + k2 + [("funlock",)], [(L, 0, 1, 1, False), (U, 0, 1, 1)]], [st(), st()])
    sc("flock-waiter/2", [[("flock", 0, 2, False)] + k4 + [("funlock",)], [(L, 0, 1, 1, False), (U, 0, 1, 1)]], [st(layer="safe"), st()])
    for layer in ("raw", "buf", "safe", "text"):
        m = "RW" if layer == "text" else "RWB"
        sc("withfork-" + layer, [[("withfork", 0, 0, 2, False), ("withfork", 0, 3, None, True)], [(L, 1, 7, 1, False), ("close", 1)]],
           [st(layer=layer, mode=m), st()])
        sc("own-locks-" + layer, [[(L, 0, 0, 2, False), (L, 1, 4, 2, True)] + k1 + k2 + k4 + [(U, 0, 0, 2)] + k1 + k3 + [("close", 1)] + k2],
           [st(layer=layer, mode=m), st(layer=layer, mode=m), st()])
    return S


def run_one(ctx, sc, bound, lines, shard=(0, 1), prefix=None):
    def make():
        w = World(ctx, rsfile, sc)
        return [w.body(p) for p in sc["threads"]], (lambda x: w.finish(x)), None

    def on_done(x, problem, choices):
        trace = ["%s@%s->%s" % l for l in x.labels if l[0] != l[2]]
        key = "hang" if "hang" in problem or "hung" in problem else "lost" if "lost" in problem else "granted" if "granted," in problem else \
            "refused" if "refused" in problem else "descriptors" if "descriptors" in problem else conc.classify(problem)
        ctx.violation("%s:%s" % (sc["name"].split("/")[0], key), "scenario %s: %s   [switches: %s]" % (sc["name"], problem, ", ".join(trace)[:900]),
                      {"scenario": sc["name"], "choices": choices, "bound": bound, "lines": bool(lines)})
    if prefix is not None:
        bodies, check, _ = make()
        sched.Clock.now = 1000.0
        x = sched.Execution(bodies, prefix, lines, bound=bound).run()
        p = x.failure
        p2 = check(x)
        if p or p2:
            on_done(x, p or p2, prefix)
        return
    sched.explore(ctx, make, bound, lines, shard, on_done)


# -- execution of other programs -------------------------------------------------------------------------------------

def exec_survivors(extra=()):
    """descriptors seen by a program executed by this process"""
    r, w = os.pipe()
    pid = _real_fork()
    if pid == 0:
        try:
            R_ = envs.R
            os.dup2(w, 1)
            os.execv("/bin/ls", ["/bin/ls", "/proc/self/fd"])
        finally:
            os._exit(9)
    R.close(w)
    data = b""
    while True:
        d = R.read(r, 4096)
        if not d:
            break
        data += d
    R.close(r)
    os.waitpid(pid, 0)
    return {int(x) for x in data.split()}


EXEC_OPS = [("open", m, how) for m in ("RWB", "RWIB", "r+b") for how in ("path", "dup", "dup0")] + [("lock", k) for k in (0, 1)] + \
    [("unlock", k) for k in (0, 1)] + [("close", k) for k in (0, 1)] + [("truncate", 0), ("opener", "RWIB"), ("opener", "RWB")]


def exec_history(ctx, hist, path):
    base = exec_survivors()
    before = set(fdset())
    streams = []           # stream, fd, survives
    expected = {}
    dups = []
    locked = set()
    try:
        for op in hist:
            if op[0] == "open":
                _, mode, how = op
                if how == "path":
                    s = rsfile.rsopen(path, mode, locking=False, buffering=0)
                    inh = "I" in mode
                else:
                    fd = R.open(path, os.O_RDWR)
                    os.set_inheritable(fd, how == "dup")
                    dups.append(fd)
                    s = rsfile.rsopen(None, mode, locking=False, buffering=0, fileno=fd, closefd=True)
                    inh = how == "dup"
                streams.append(s)
                expected[s.fileno()] = inh
            elif op[0] == "opener":
                def opener(p, flags):
                    fd = R.open(p, flags, 0o600)
                    os.set_inheritable(fd, not flags & os.O_CLOEXEC)
                    return fd
                s = rsfile.rsopen(path, op[1], locking=False, buffering=0, opener=opener)
                streams.append(s)
                expected[s.fileno()] = "I" in op[1]
            else:
                if len(streams) <= op[1]:
                    return None
                s = streams[op[1]]
                if s.closed:
                    return None
                if op[0] == "lock":
                    if op[1] in locked:
                        return None
                    s.lock_file(timeout=0, offset=op[1], length=1)
                    locked.add(op[1])
                elif op[0] == "unlock":
                    if op[1] not in locked:
                        return None
                    s.unlock_file(offset=op[1], length=1)
                    locked.discard(op[1])
                elif op[0] == "close":
                    s.close()
                    locked.discard(op[1])
                elif op[0] == "truncate":
                    s.truncate(3)
        now = set(fdset()) - before
        want = base | {fd for fd in now if expected.get(fd)}
        got = exec_survivors()
        # numbers used by the listing program itself may differ
        extra = (got - want) & now
        missing = want - got
        if extra or missing:
            return "after %s, descriptors %r survive an execution, %r do not survive" % (hist, sorted(extra), sorted(missing))
        return ""
    finally:
        for s in streams:
            s.close()


def exec_job(ctx, j):
    _, k, n = j
    path = os.path.join(ctx.scratch, "x")
    with open(path, "wb") as f:
        f.write(b"123456")
    depth = 3 if ctx.quick else 4
    i = 0
    states = set()
    for d in range(1, depth + 1):
        for h in itertools.product(EXEC_OPS, repeat=d):
            if h[0][0] not in ("open", "opener") or (d > 2 and h[-1][0] in ("open", "opener")) or (d > 3 and h[1][0] not in ("open", "opener")):
                continue
            i += 1
            if i % n != k:
                continue
            p = exec_history(ctx, h, path)
            if p is None:
                continue
            ctx.stats.add("executions")
            ctx.stats.add("transitions", d)
            ctx.stats.add("states")
            ctx.outcome(h)
            if p:
                ctx.violation("exec", p, {"exec": h})
                return


def exec_modes(ctx):
    """every valid mode with and without inheritability, on all layers"""
    from . import p10
    path = os.path.join(ctx.scratch, "m")
    for m in sorted({m for m in p10.strings(True) if len(m) <= 6 and p10.spec(m) and list(m) == sorted(m, key=(p10.ADV + p10.STD + "+-").find)}):
        s = p10.spec(m)
        if s["create"]:
            if os.path.exists(path):
                os.unlink(path)
        else:
            with open(path, "wb") as f:
                f.write(b"x")
        st_ = rsfile.rsopen(path, m, locking=False)
        fd = st_.fileno()
        inh = os.get_inheritable(fd)
        st_.close()
        ctx.stats.add("executions")
        ctx.stats.add("transitions")
        if inh != s["inherit"]:
            ctx.violation("exec-mode", "mode %r: descriptor inheritable: %s" % (m, inh), {"exec": (("open", m, "path"),)})


# -- driver ------------------------------------------------------------------------------------------------------------

def prepare(ctx):
    global rsfile, LINES
    warnings.simplefilter("ignore", DeprecationWarning)
    sched.install()
    os.register_at_fork(before=before, after_in_child=in_child, after_in_parent=in_parent)      # before those of rsfile
    rsfile = core.import_rsfile()
    LINES = (core.SRC + "/rsfile/",)
    ctx.pin = True


def bounds(ctx):
    return {"scenarios": len(scenarios()), "preemptions at source lines": 1, "preemptions at mutex and system-call points": 2 if ctx.quick else 3,
            "depth of histories before an exec": 3 if ctx.quick else 4}


def run(ctx):
    by = {s["name"]: s for s in scenarios()}
    jobs = []
    for n, s in by.items():
        if len(s["threads"]) == 1:
            jobs.append(("fork", n, 0, False, 0, 1))
            continue
        jobs += [("fork", n, 1, True, k, 2) for k in range(2)]
        jobs.append(("fork", n, 2 if ctx.quick else 3, False, 0, 1))
    jobs += [("exec", k, 16) for k in range(16)] + [("modes",)]

    def job(c, j):
        if j[0] == "fork":
            run_one(c, by[j[1]], j[2], LINES if j[3] else (), j[4:])
            c.outcome(j)
        elif j[0] == "exec":
            exec_job(c, j)
        else:
            exec_modes(c)
    ctx.parallel(jobs, job)
    ctx.sample("scenario lock-close: T0 locks and closes; T1 forks at each line of T0; the child closes its streams, then tries locks")


def replay(ctx, data):
    r = data["replay"]
    if "exec" in r:
        path = os.path.join(ctx.scratch, "x")
        open(path, "wb").write(b"123456")
        p = exec_history(ctx, [tuple(o) for o in r["exec"]], path)
        if p:
            ctx.violation("exec", p, r)
        return
    run_one(ctx, {s["name"]: s for s in scenarios()}[r["scenario"]], r["bound"], LINES if r["lines"] else (), prefix=r["choices"])
