"""P11: opening under every conflict, invalid argument and placement of system failures."""
import errno
import fcntl
import itertools
import os
import stat
import time

from .. import core, envs, klock
from ..envs import R

LEVEL = "fault_enumeration"
RULE = ("the product of modes, file states, lock holders, buffering and wrapping options; for each every placement of up to k failures or "
        "exceptions among the system calls made by the opening; plus every invalid argument in every mode. The content and the locks are "
        "looked at after each system call. Non-trivial: the opening failed, waited or erased something")
ASSUMPTIONS = ["an opener is itself responsible for what it does with the flags it is given", "a file which did not exist may be left created, empty"]

CONTENT = b"precious content"


class Boom(Exception):
    pass


class Interrupt(BaseException):
    """like KeyboardInterrupt"""


class Clock:
    now = 0.0
    on_sleep = None


def v_sleep(s):
    Clock.now += max(s, 0.001)
    if envs._hook:
        envs._hook("sleep", lambda: None, (), {})
    if Clock.on_sleep:
        Clock.on_sleep()


FAULTS = {"open": ["EACCES", "EMFILE", "EINTR"], "fstat": ["EIO"], "set_inheritable": ["EIO"], "lseek": ["EIO"], "ftruncate": ["EIO", "EPERM"],
          "lockf": ["ENOLCK", "EAGAIN", "EINVAL"], "close": ["EIO"], "fcntl_fcntl": ["EIO"], "isatty": [], "sleep": [],
          "mutex": ["ENOSPC"]}


class Env:
    def __init__(self, world, prefix):
        self.w, self.prefix, self.points, self.armed = world, prefix, [], False
        self.problem = None
        self.locking = False
        self.faults = []
        self.erased = False
        self.owned = set()

    def __call__(self, name, real, a, kw):
        if not self.armed or name not in FAULTS:
            return real(*a, **kw)
        if name == "close" and a[0] not in self.owned:
            return real(*a, **kw)
        alts = ["ok"] + FAULTS[name] + ["boom", "interrupt"]
        if name == "close":
            alts = ["ok", "EIO"]
        if name == "fcntl_fcntl" or name == "isatty":
            alts = ["ok"]
        if name == "lockf" and a[1] == fcntl.LOCK_UN:
            alts = ["ok"]
        if name == "fstat" and (self.w.local or self.w.opened):
            alts = ["ok"]         # cannot fail in practice; closing a descriptor of unknown identity would drop the locks of others
        if name in ("fstat", "lseek") and self.erased:
            alts = ["ok"]         # the file was erased: the opening is over but for formalities
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(alts):
            raise core.HarnessError("replay diverged")
        self.points.append((alts, c))
        ans = alts[c]
        if ans != "ok":
            self.faults.append((name, ans))
        if ans == "boom":
            raise Boom()
        if ans == "interrupt":
            raise Interrupt()
        if ans != "ok" and name != "close":
            raise OSError(getattr(errno, ans), "injected on %s" % name)
        if name == "lockf" and not a[1] & fcntl.LOCK_NB and a[1] != fcntl.LOCK_UN:
            self.w.waiting()          # would block: the other process proceeds
        try:
            res = real(*a, **kw)
        finally:
            self.w.look(self, name)
        if name == "open":
            self.owned.add(res)
        if ans != "ok":
            self.owned.discard(a[0])
            raise OSError(errno.EIO, "injected on close")
        return res


MODES = ["RB", "WB", "RWB", "WEB", "RWEB", "AB", "AEB", "RWNB", "RWNEB", "WCB", "RWCEB", "WEIB", "WESB", "WET", "RT", "RWET", "AET", "AT", "r", "rb", "w", "wb", "w+b", "r+", "a",
         "ab", "x", "xb"]
STATES = ["file", "absent", "dir"]
HOLDERS = [None, "foreign-x", "foreign-s", "local-x", "local-s"]


def writable(mode):
    return any(c in mode for c in "WAwax+")


def erases(mode):
    return ("E" in mode and "C" not in mode) or "w" in mode


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.path = os.path.join(ctx.scratch, "file")
        self.dir = os.path.join(ctx.scratch, "dir")
        os.mkdir(self.dir)
        self.foreign = None
        self.holder = None
        self.release_after = None
        self.opened = []

    def setup(self, state, holder):
        try:
            R.unlink(self.path)
        except FileNotFoundError:
            pass
        self.hfd = None
        if state == "file":
            self.hfd = R.open(self.path, os.O_RDWR | os.O_CREAT, 0o644)
            R.write(self.hfd, CONTENT)
        self.foreign = klock.Foreign(self.path) if state == "file" else None
        self.local = None
        self.expected = CONTENT if state == "file" else None
        self.holder = holder
        if holder and holder.startswith("foreign"):
            self.foreign.lock(0, None, holder.endswith("s"))
        elif holder:
            self.local = rsfile.rsopen(self.path, "RWB", buffering=0, locking=False, thread_safe=False)
            self.local.lock_file(timeout=0, offset=0, length=None, shared=holder.endswith("s"))
        self.held = bool(holder)
        self.sleeps = 0

    def release(self):
        if self.held:
            self.held = False
            if self.local:
                self.local.unlock_file()
            else:
                self.foreign.unlock()

    def waiting(self):
        if self.holder and self.holder.startswith("foreign") and self.held:
            # it uses the file once more, then releases it
            if self.content() != self.expected:
                self.env.problem = "while the opening waits for the lock, the file contains %r" % self.content()
            R.pwrite(self.hfd, b"P", 0)
            self.expected = b"P" + self.expected[1:]
            self.release()

    def slept(self):
        self.sleeps += 1
        if self.sleeps > 200:
            raise core.HarnessError("no end of waiting")
        if self.release_after is not None and self.sleeps == self.release_after:
            self.env.armed = False
            try:
                if self.content() != self.expected:
                    self.env.problem = "while the opening waits for the lock, the file contains %r" % self.content()
                self.release()
            finally:
                self.env.armed = True

    def content(self):
        return R.pread(self.hfd, 4096, 0) if self.hfd is not None else None

    def look(self, env, name):
        if env.problem or self.hfd is None:
            return
        if self.content() != self.expected and not env.erased:
            env.erased = True
            if not env.locking:
                return
            if self.held and not (self.local and False):
                env.problem = "%s altered the content while the lock is held by another (%s)" % (name, self.holder)
            elif self.foreign.seen(0, None) != "W" or self.foreign.seen(1 << 40, None) != "W" or self.foreign.seen(0, 1) != "W":
                env.problem = "%s altered the content before the lock was held" % name

    def fds(self):
        return set(os.listdir("/proc/self/fd"))

    def run(self, job, prefix):
        """(env, problem, outcome)"""
        mode, state, holder, buffering, safe, locking, timeout, release, bad = job
        env = self.env = Env(self, prefix)
        before0 = self.fds()
        self.setup(state, holder)
        self.release_after = release
        Clock.now = 0.0
        Clock.on_sleep = self.slept
        path = self.dir if state == "dir" else self.path
        kw = dict(buffering=buffering, thread_safe=safe, locking=locking, timeout=timeout)
        name = path
        kind = None
        if bad is not None:
            kw.update({k: v for k, v in bad.items() if k != "name"})
            name = bad.get("name", path)
            if name == "PATH\0":
                name = path + "\0x"
        opener = kw.get("opener")
        opened = self.opened = []
        if opener:
            def do_open(p, f):
                if opener == "raise":
                    raise Boom()
                if opener == "neg":
                    return -1
                if opener in ("str", "none"):
                    return "x" if opener == "str" else None
                fd = R.open(p, f & ~os.O_TRUNC, 0o644)
                opened.append(fd)
                env.owned.add(fd)
                return fd
            kw["opener"] = do_open
        env.locking = bool(locking)
        before = self.fds()
        envs.set_hook(env)
        st = err = None
        try:
            env.armed = True
            st = rsfile.rsopen(name, mode, **kw)
        except (Boom, OSError, ValueError, TypeError, LookupError, OverflowError, AssertionError, AttributeError, Interrupt) as e:
            err = e
            early = self.fds() - before - {str(x) for x in opened}
            early = bool(early) and not self.local and not any(f[0] in ("fstat", "lseek", "close") for f in env.faults)
            err.__traceback__ = None
            c = err.__context__
            while c is not None:
                c.__traceback__ = None
                c = c.__context__
        finally:
            env.armed = False
            envs.set_hook(None)
            Clock.on_sleep = None
        try:
            problem = env.problem or self.judge(env, job, st, err, before)
            if err is not None and early and not problem:
                problem = "opening failed (%r) but left a descriptor open" % err
            if st is not None:
                st.close()
                st = None
            self.release()
            if self.local:
                self.local.close()
                self.local = None
            if not problem and self.hfd is not None:
                if self.foreign.seen(0, None):
                    problem = "a lock is left on the file"
            if self.hfd is not None:
                R.close(self.hfd)
                self.foreign.close()
            left = self.fds() - before0
            if left:
                for f in left:
                    try:
                        R.close(int(f))
                    except OSError:
                        pass
                problem = problem or "the opening (%r) left descriptors open" % err
            return env, problem, type(err).__name__ if err else "ok"
        finally:
            if st is not None:
                st.close()

    def judge(self, env, job, st, err, before):
        mode, state, holder, buffering, safe, locking, timeout, release, bad = job
        if isinstance(err, AssertionError) or isinstance(err, AttributeError):
            return "opening raised %r" % err
        hard = [f for f in env.faults if f != ("lockf", "EAGAIN") and f != ("lockf", "ENOLCK")]
        if st is not None:
            if any(f[1] in ("boom", "interrupt") and f != ("isatty", "boom") for f in env.faults):
                return "an exception raised during %s was swallowed" % env.faults
            if any(f[0] in ("open", "ftruncate") or f == ("lockf", "EINVAL") for f in env.faults):
                return "the failure of %s was swallowed" % env.faults
            if bad is not None:
                return "opening with %r succeeded" % bad
            if self.held and locking and (writable(mode) or holder.endswith("x")):
                return "opening succeeded although the lock is held by %s" % holder
            want = b"" if erases(mode) and state == "file" else self.expected
            if state == "file" and self.content() != want:
                return "after opening the file contains %r instead of %r" % (self.content(), want)
            return None
        # a failed opening
        if state == "file":
            if self.content() != self.expected:
                return "opening failed (%r) but the content is now %r" % (err, self.content())
            if self.hfd is not None and R.fstat(self.hfd).st_ino != os.stat(self.path).st_ino:
                return "opening failed (%r) but the file was replaced" % err
            if not self.held:
                seen = self.foreign.seen(0, None)
                if seen:
                    return "opening failed (%r) but other processes still see a lock" % err
                w = rsfile.rsopen(self.path, "RWB", buffering=0, locking=False, thread_safe=False)
                try:
                    w.lock_file(timeout=0)
                except OSError as e:
                    return "opening failed (%r) but its lock is still registered" % err
                finally:
                    w.close()
            elif self.local and self.foreign.seen(0, 1, True) != ("W" if holder == "local-x" else "") or \
                    self.local and self.foreign.seen(0, 1) != ("W" if holder == "local-x" else "R"):
                return "opening failed (%r) and the lock of the other stream was lost" % err
            if not self.local:
                left = self.fds() - before
                if left:
                    return "opening failed (%r) but descriptors were left open" % err
        elif state == "absent":
            if os.path.exists(self.path) and os.path.getsize(self.path):
                return "opening failed but left a non-empty file"
        if not hard and bad is None and state == "file" and not holder and "x" not in mode and "C" not in mode:
            if [f for f in env.faults if f[0] == "lockf"]:
                return None if isinstance(err, OSError) else "opening raised %r" % err
            return "opening raised %r without any reason" % err
        return None


BAD = [dict(encoding="nope"), dict(encoding="hex"), dict(encoding=5), dict(errors=5), dict(newline="x"), dict(newline=5), dict(buffering="a"), dict(buffering=True),
       dict(closefd=False), dict(fileno=-1, name=None), dict(handle=-5, name=None), dict(fileno=100000, name=None), dict(mutex=True), dict(timeout=-1),
       dict(timeout="x"), dict(name=b""), dict(name=""), dict(name=5.5), dict(name=True), dict(name="PATH\0"), dict(name=None), dict(fileno=0), dict(handle=0),
       dict(opener="raise"), dict(opener="neg"), dict(opener="str"), dict(opener="none"), dict(permissions="x"), dict(permissions=None),
       dict(opener="ok", timeout=-1), dict(opener="ok", encoding="nope"), dict(opener="ok", newline="x"), dict(buffering=0), dict(encoding="a\0b"),
       dict(fileno=2 ** 80, name=None), dict(fileno="x", name=None)]
BADMODES = ["", "E", "RE", "BE", "rw", "wa", "ww", "WW", "WEBT", "wbt", "Rw", "wE", "U", "rU", "WCN", "RC N", "WEZ", "w0", "b", "+", "B", "T", "CN", "WC-N", "REB", "RBE", "W+C",
            "WE\0", "wx", "xa", "rb+t", "r++"]


def applicable_bad(mode, bad):
    binary = "B" in mode or "b" in mode
    if "encoding" in bad or "errors" in bad or "newline" in bad:
        return True
    if bad == {"buffering": 0}:
        return not binary
    if "timeout" in bad and len(bad) == 1 or bad.get("opener") == "ok" and "timeout" in bad:
        return True
    if bad == {"mutex": True}:
        return True
    if "permissions" in bad:
        return True
    return True


def grid(quick):
    res = []
    for mode in MODES:
        text = not ("B" in mode or "b" in mode)
        for state in STATES:
            for holder in HOLDERS if state == "file" else [None]:
                for buffering, safe in ([(None, True), (3, False)] if text else [(0, False), (None, True), (3, False)]):
                    for locking, timeout, release in ((True, None, None), (True, 0, None), (True, 0.5, None), (True, 0.5, 2), (False, None, None)):
                        if holder and holder.startswith("local") and timeout is None and locking:
                            continue
                        if not holder and (timeout == 0.5):
                            continue
                        res.append((mode, state, holder, buffering, safe, locking, timeout, release, None))
    return res


def bad_grid():
    res = []
    for mode in MODES:
        for bad in BAD:
            for locking in (True, False):
                b = dict(bad)
                safe = not b.get("mutex")
                res.append((mode, "file", None, None, safe, locking, None, None, b))
    for mode in BADMODES:
        for locking in (True, False):
            res.append((mode, "file", None, None, True, locking, None, None, {}))
            res.append((mode, "absent", None, None, True, locking, None, None, {}))
    return res


def legit(job):
    """is that 'bad' argument in fact acceptable in that mode?"""
    mode, bad = job[0], job[8]
    binary = "B" in mode or "b" in mode
    if not bad:
        return False
    if bad == {"buffering": 0} and binary:
        return True
    if "timeout" in bad and not job[5]:
        return True          # unused without locking
    if "permissions" in bad:
        return True          # judged only for what is left behind
    if mode in ("x", "xb", "WCB", "RWCEB"):
        return False
    return False


def explore(ctx, w, job, maxdev):
    stack = [()]
    while stack:
        prefix = stack.pop()
        env, problem, outcome = w.run(job, prefix)
        ctx.stats.add("executions")
        choices = tuple(c for _, c in env.points)
        used = sum(1 for c in choices if c)
        if outcome != "ok" or used or erases(job[0]) or job[2]:
            ctx.stats.add("nontrivial")
        ctx.outcome((job[0], job[1], job[2], outcome, tuple(env.faults)))
        if problem and legit(job) and problem.startswith("opening with"):
            problem = None
        if problem:
            answers = ["%s" % alts[c] for alts, c in env.points]
            mode, state, holder, buffering, safe, locking, timeout, release, bad = job
            key = "%s:%s" % ("bad" if bad is not None else mode, problem.split("(")[0][:60])
            ctx.violation(key, "rsopen(%s, %r, buffering=%r, thread_safe=%r, locking=%r, timeout=%r%s), lock holder %s, failures %s: %s" % (
                state, mode, buffering, safe, locking, timeout, ", " + repr(bad) if bad else "", holder, env.faults, problem),
                {"job": list(job), "choices": list(choices)})
            return
        if used < maxdev:
            for i in range(len(prefix), len(env.points)):
                for alt in range(1, len(env.points[i][0])):
                    stack.append(choices[:i] + (alt,))


def job(ctx, j):
    k, n = j
    w = World(ctx)
    try:
        for g in grid(ctx.quick)[k::n]:
            explore(ctx, w, g, (2 if g[2] else 3) if ctx.quick else 4)
        for g in bad_grid()[k::n]:
            explore(ctx, w, g, 1 if ctx.quick else 2)
    finally:
        os.rmdir(w.dir)


def bounds(ctx):
    return {"openings": len(grid(ctx.quick)), "openings with invalid arguments": len(bad_grid()), "failures per opening": "3 (2 with another lock holder), 1 with invalid arguments" if ctx.quick else "4, 2 with invalid arguments",
            "failures": {k: v + ["exception", "interruption"] for k, v in FAULTS.items()}}


def prepare(ctx):
    global rsfile
    envs.install()
    time.sleep = v_sleep
    time.monotonic = lambda: Clock.now
    import multiprocessing.context
    create = multiprocessing.context.BaseContext.RLock
    shared = create(multiprocessing.get_context())        # creating one each time would be slow

    def rlock(self):
        def real():
            return shared
        return envs._hook("mutex", real, (), {}) if envs._hook else shared
    multiprocessing.context.BaseContext.RLock = rlock
    multiprocessing.RLock = lambda: rlock(None)
    rsfile = core.import_rsfile()
    import warnings
    warnings.simplefilter("ignore")


def run(ctx):
    ctx.parallel([(k, 32) for k in range(32)], job)
    ctx.sample("rsopen(file, 'RWEB', buffering=3, locking=True, timeout=0.5) against a foreign exclusive lock released after two retries, fstat failing with EIO")


def replay(ctx, data):
    import pickle
    w = World(ctx)
    j = tuple(pickle.loads(bytes.fromhex(data["pickle"]))[1]["job"])
    env, problem, outcome = w.run(j, tuple(data["replay"]["choices"]))
    if problem:
        ctx.violation("replay", problem, data["replay"])
