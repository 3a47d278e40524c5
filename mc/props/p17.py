"""P17: closing in every state, by every means, with every placement of failing writes, unlocks and closes."""
import errno
import fcntl
import gc
import itertools
import os
import sys

from .. import core, envs, hist, klock
from ..envs import R

LEVEL = "fault_enumeration"
RULE = ("every preparation (sequence of writes, reads and locks up to a depth, with or without another stream holding a lock), closed by every "
        "means, under every placement of up to k failures among the write, unlock and close system calls it makes; then every operation is "
        "tried on the closed stream over a decoy which reuses the descriptor number. Non-trivial: a failure was injected")
ASSUMPTIONS = ["as on Linux, close() releases the descriptor even when it reports an error", "errors met while closing from the finalizer are not raised to anybody"]


class Boom(Exception):
    pass


class Env:
    def __init__(self, prefix, fds):
        self.prefix, self.points, self.armed, self.fds = prefix, [], False, fds
        self.closed = []
        self.faults = []
        self.watch = None

    def choose(self, alts):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((alts, c))
        if c >= len(alts):
            raise core.HarnessError("replay diverged")
        if c:
            self.faults.append(alts[c])
        return alts[c]

    def __call__(self, name, real, a, kw):
        if self.watch is not None and a and isinstance(a[0], int) and a[0] == self.watch and name not in ("fstat",):
            self.touched = name
        if name == "close" and a[0] in self.fds:
            self.closed.append(a[0])
            ans = self.choose(("ok", "EIO", "EINTR")) if self.armed else "ok"
            real(*a)
            if ans != "ok":
                raise OSError(getattr(errno, ans), "injected on close")
            return None
        if self.armed and a and a[0] in self.fds:
            if name == "write":
                n = memoryview(a[1]).nbytes
                ans = self.choose(("ok", "ENOSPC", "EAGAIN", "boom") + (("one",) if n > 1 else ()))
                if ans == "one":
                    return real(a[0], bytes(memoryview(a[1]).cast("B")[:1]))
                if ans == "boom":
                    raise Boom()
                if ans != "ok":
                    raise OSError(getattr(errno, ans), "injected on write")
            elif name == "lockf" and a[1] == fcntl.LOCK_UN:
                ans = self.choose(("ok", "ENOLCK", "EIO"))
                if ans != "ok":
                    raise OSError(getattr(errno, ans), "injected on unlock")
        return real(*a, **kw)


class Config:
    def __init__(self, name, mode, buffering, safe=False, origin="path", closefd=True):
        self.name, self.mode, self.buffering, self.safe, self.origin, self.closefd = name, mode, buffering, safe, origin, closefd
        self.raw = buffering == 0
        self.text = "T" in mode
        self.w = "W" in mode or "A" in mode
        self.r = "R" in mode


def configs():
    return [Config("raw", "RWB", 0), Config("raw-safe", "RWB", 0, True), Config("buf4", "RWB", 4), Config("buf-safe", "RWB", -1, True),
            Config("writer4", "WB", 4), Config("append", "AB", -1), Config("reader", "RB", 4), Config("text", "RWT", -1), Config("text4", "WT", 4),
            Config("text-safe", "RWT", 5, True), Config("text-reader", "RT", -1),
            Config("wrap", "RWB", 4, origin="fileno"), Config("wrap-keep", "RWB", 4, origin="fileno", closefd=False),
            Config("wrap-keep-text", "RWT", -1, True, origin="handle", closefd=False)]


# other: locks held by another stream of the process meanwhile
PRE = [("write", 2), ("write", 9), ("read", 2), ("lock", 0, None), ("lock", 0, 3), ("lock", 5, 2), ("seek", 1)]
OTHERS = [None, (20, 5), (4, 1)]
MEANS = ["close", "with", "with-exc", "del", "with-lock", "body"]
INITIAL = b"abcdefghijkl"


def pres(quick):
    res = [()]
    for d in range(1, 3 if quick else 4):
        for h in itertools.product(PRE, repeat=d):
            if h[-1] == ("seek", 1) or any(h[i] == h[i + 1] and h[i][0] == "lock" for i in range(d - 1)):
                continue
            res.append(h)
    res += [(("lock", 0, 3), ("lock", 5, 2), ("write", 2)), (("lock", 0, 3), ("lock", 5, 2), ("write", 9)), (("write", 2), ("lock", 0, 3), ("lock", 5, 2))]
    return res


def after_ops(cfg):
    s = "x" if cfg.text else b"x"
    ops = [("read", (1,)), ("read", ()), ("readline", ()), ("readlines", ()), ("write", (s,)), ("writelines", ([s],)), ("seek", (0,)), ("tell", ()),
           ("truncate", (0,)), ("truncate", ()), ("flush", ()), ("size", ()), ("sync", ()), ("times", ()), ("unique_id", ()), ("uid", ()), ("fileno", ()), ("handle", ()),
           ("lock_file", ()), ("lock_file", (0,)), ("unlock_file", ()), ("readable", ()), ("writable", ()), ("seekable", ()), ("isatty", ()),
           ("__enter__", ()), ("__iter__", ()), ("__next__", ()), ("readinto", (bytearray(2),))]
    if cfg.raw:
        ops += [("readall", ())]
    if not cfg.raw and not cfg.text and cfg.r:
        ops += [("peek", (1,)), ("read1", (1,)), ("readinto1", (bytearray(2),))]
    return ops


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.path = os.path.join(ctx.scratch, "data")
        self.hfd = R.open(self.path, os.O_RDWR | os.O_CREAT | os.O_CLOEXEC, 0o644)
        self.foreign = klock.Foreign(self.path)
        self.decoy_path = os.path.join(ctx.scratch, "decoy")

    def content(self):
        return R.pread(self.hfd, 1 << 20, 0)

    def fdset(self):
        return set(os.listdir("/proc/self/fd"))

    def run(self, cfg, pre, other, means, prefix, ops=False):
        R.ftruncate(self.hfd, 0)
        R.pwrite(self.hfd, INITIAL, 0)
        before = self.fdset()
        kw = dict(buffering=cfg.buffering, locking=False, thread_safe=cfg.safe)
        if cfg.text:
            kw.update(encoding="ascii", newline="")
        witness = rsfile.rsopen(self.path, "RWB", buffering=0, locking=False, thread_safe=False)
        b = rsfile.rsopen(self.path, "RWB", buffering=0, locking=False, thread_safe=False) if other else None
        wrapped = None
        if cfg.origin == "path":
            st = rsfile.rsopen(self.path, cfg.mode, **kw)
        else:
            wrapped = R.open(self.path, os.O_RDWR)
            st = rsfile.rsopen(None, cfg.mode, closefd=cfg.closefd, **{cfg.origin: wrapped}, **kw)
        fd = st.fileno()
        env = Env(prefix, {fd} | ({b.fileno()} if b else set()))
        envs.set_hook(env)
        m = hist.Model(INITIAL, cfg.r, cfg.w, "A" in cfg.mode)
        mine = []
        try:
            if b:
                b.lock_file(timeout=0, offset=other[0], length=other[1])
            conv = (lambda d: d.decode("ascii")) if cfg.text else bytes
            for i, op in enumerate(pre):
                if op[0] == "write":
                    if cfg.w:
                        d = hist.payload(i, op[1])
                        st.write(conv(d))
                        m.write(d)
                elif op[0] == "read":
                    if cfg.r:
                        if cfg.text and any(o[0] == "write" for o in pre[:i]):
                            st.seek(0)
                            m.seek(0, 0)
                        m.read(len(st.read(op[1])))
                        if cfg.text and any(o[0] == "write" for o in pre[i:]):
                            st.seek(0)
                            m.seek(0, 0)
                elif op[0] == "seek":
                    st.seek(op[1])
                    m.seek(op[1], 0)
                else:
                    try:
                        st.lock_file(timeout=0, offset=op[1], length=op[2])
                        mine.append((op[1], op[2]))
                    except rsfile.LockingException:
                        pass
                    except RuntimeError:
                        pass
            env.armed = True
            n0 = len(env.faults)
            if means == "del":
                err = None
                st = None
            else:
                err = self.close_by(means, st, cfg, env)
            faults = env.faults[n0:]
            env.armed = False
            if isinstance(err, str):
                return env, err
            p = self.after(cfg, st, env, m, mine, err, faults, witness, b, other, means, fd, wrapped, ops)
            if p:
                return env, p
            # now the other stream releases its lock and closes
            if b:
                env.armed = True
                n1 = len(env.faults)
                e2 = None
                try:
                    b.unlock_file(offset=other[0], length=other[1])
                except (OSError, Boom) as e:
                    e2 = e
                f2 = env.faults[n1:]
                if f2 and e2 is None:
                    return env, "unlocking swallowed the failure (%s) of a system call" % f2
                env.armed = False
                if cfg.closefd and fd not in env.closed:
                    return env, "the descriptor of the closed stream is still open when the last lock on the file is released"
                b.close()
                b = None
            if st is not None:
                st.close()
            witness.close()
            witness = None
            if wrapped is not None and not cfg.closefd:
                if wrapped in env.closed:
                    return env, "a descriptor wrapped with closefd=False was closed"
                R.close(wrapped)
            wrapped = None
            for f in env.fds:
                if env.closed.count(f) > 1:
                    return env, "descriptor %d was closed %d times" % (f, env.closed.count(f))
            gc_needed = self.fdset() - before
            if gc_needed:
                return env, "descriptors left open after closing everything: %s" % sorted(gc_needed)
            if self.foreign.seen(0, None):
                return env, "locks left on the file after closing everything"
            return env, None
        finally:
            env.armed = False
            for s in (st, b, witness):
                if s is not None:
                    try:
                        s.close()
                    except Exception:
                        pass
            envs.set_hook(None)
            left = self.fdset() - before
            for f in left:
                try:
                    R.close(int(f))
                except OSError:
                    pass

    def close_by(self, means, st, cfg, env):
        """the exception raised, None, or a problem"""
        class Body(Exception):
            pass
        try:
            if means == "close":
                st.close()
            elif means == "with":
                with st:
                    pass
            elif means == "with-exc":
                try:
                    with st:
                        raise Body()
                except Body:
                    pass
                else:
                    return "the exception of the with block was swallowed"
            elif means == "body":
                with st:
                    st.close()
            elif means == "with-lock":
                try:
                    env.armed = False
                    with st.lock_file(timeout=0, offset=30, length=1):
                        env.armed = True
                        st.close()
                except ValueError as e:
                    c = e.__context__
                    while c is not None:
                        if isinstance(c, (OSError, Boom)):
                            raise c
                        c = c.__context__
            return None
        except (OSError, Boom) as e:
            e.__traceback__ = None
            if e.__context__ is not None:
                e.__context__.__traceback__ = None
            return e
        except Body as e:
            return e

    def after(self, cfg, st, env, m, mine, err, faults, witness, b, other, means, fd, wrapped, ops):
        if means == "del":
            hard = [f for f in faults if f != "one"]
            if not hard and self.content() != bytes(m.data):
                return "after losing the stream the file contains %r instead of %r" % (self.content(), bytes(m.data))
            return self.released(cfg, env, mine, err, hard, witness, b, other, fd)
        if st.closed is not True:
            return "the stream does not report closed after %s" % ("close() raised %r" % err if err else "close() returned")
        hard = [f for f in faults if f != "one"]
        if err is None:
            if hard:
                return "closing swallowed the failure (%s) of a system call" % ", ".join(hard)
            if self.content() != bytes(m.data):
                return "close() returned but the file contains %r instead of %r" % (self.content(), bytes(m.data))
        elif not hard:
            return "closing raised %r" % err
        p = self.released(cfg, env, mine, err, hard, witness, b, other, fd)
        if p:
            return p
        n = len(env.closed)
        try:
            r = st.close()
        except Exception as e:
            return "a second close() raised %r" % e
        if r is not None:
            return "a second close() returned %r" % r
        if len(env.closed) != n:
            return "a second close() closed descriptor %s" % env.closed[n:]
        if ops and fd in env.closed:
            return self.closed_ops(cfg, st, env, fd)
        return None

    def released(self, cfg, env, mine, err, hard, witness, b, other, fd):
        # its locks are released for the other streams of the process...
        for off, length in mine:
            try:
                witness.lock_file(timeout=0, offset=off, length=length)
            except OSError as e:
                if self.overlap(off, length, other):
                    continue
                return "after closing (%s), its lock (%s, %s) is still held: %r" % (err, off, length, e)
            witness.unlock_file(offset=off, length=length)
        # ... and for other processes, unless the system refused to
        if "ENOLCK" not in hard and "EIO" not in hard:
            for p in range(0, 32):
                seen = self.foreign.seen(p, p + 1)
                want = "W" if b and other[0] <= p < other[0] + other[1] else ""
                if seen != want:
                    return "after closing (%s), other processes see byte %d as %r instead of %r" % (err, p, seen, want)
        if not cfg.closefd:
            if fd in env.closed:
                return "a descriptor wrapped with closefd=False was closed"
        elif b is None and fd not in env.closed:
            return "after closing (%s), the descriptor is still open" % err
        elif b is not None and fd in env.closed:
            return "the descriptor was closed while another stream holds a lock on the file"
        return None

    def overlap(self, off, length, other):
        return other and other[0] < (off + length if length else 1 << 60) and off < other[0] + other[1]

    def closed_ops(self, cfg, st, env, fd):
        d = R.open(self.decoy_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        if d != fd:
            os.dup2(d, fd)
            R.close(d)
        R.write(fd, b"decoy content")
        R.lseek(fd, 3, 0)
        env.watch, env.touched = fd, None
        try:
            for name, args in after_ops(cfg):
                try:
                    r = getattr(st, name)(*args)
                except ValueError:
                    r = None
                except AttributeError:
                    continue
                except OSError as e:
                    return "%s on the closed stream raised %r" % (name, e)
                except Exception as e:
                    return "%s on the closed stream raised %r" % (name, e)
                else:
                    if name not in ("readable", "writable") or r is not False:
                        return "%s on the closed stream returned %r" % (name, r)
                if env.touched:
                    return "%s on the closed stream used (%s) the descriptor number, which is now that of another file" % (name, env.touched)
            if R.pread(fd, 100, 0) != b"decoy content" or R.lseek(fd, 0, 1) != 3:
                return "operations on the closed stream altered another file which reuses the descriptor number"
        finally:
            env.watch = None
            R.close(fd)
        return None


def explore(ctx, w, cfg, pre, other, means, maxdev):
    stack = [()]
    first = True
    while stack:
        prefix = stack.pop()
        env, problem = w.run(cfg, pre, other, means, prefix, ops=True)
        first = False
        ctx.stats.add("executions")
        choices = tuple(c for _, c in env.points)
        used = sum(1 for c in choices if c)
        if used:
            ctx.stats.add("nontrivial")
            ctx.outcome((cfg.name, means, tuple(alts[c] for alts, c in env.points if c)))
        if problem:
            answers = [alts[c] for alts, c in env.points]
            ctx.violation("%s:%s" % (cfg.name, problem.split("(")[0][:50]), "stream %s (mode %s, buffering %d%s), %s%s, closed by %s, system calls answered %s: %s" % (
                cfg.name, cfg.mode, cfg.buffering, "" if cfg.closefd else ", closefd=False", hist.fmt(pre) or "nothing done before",
                ", another stream holding a lock" if other else "", means, "/".join(answers), problem),
                {"config": cfg.name, "pre": [list(o) for o in pre], "other": other, "means": means, "choices": list(choices)})
            return True
        if used < maxdev:
            for i in range(len(prefix), len(env.points)):
                for alt in range(1, len(env.points[i][0])):
                    stack.append(choices[:i] + (alt,))


def job(ctx, j):
    name, k, n = j
    cfg = [c for c in configs() if c.name == name][0]
    w = World(ctx)
    gc.disable()
    for pre in pres(ctx.quick)[k::n]:
        for other in OTHERS:
            for means in MEANS:
                if means == "with-lock" and (not cfg.w or any(o == ("lock", 0, None) for o in pre)):
                    continue
                if explore(ctx, w, cfg, pre, other, means, 2 if ctx.quick else 3):
                    return


def bounds(ctx):
    return {"streams": [c.name for c in configs()], "preparations": len(pres(ctx.quick)), "closed by": MEANS, "other lock holder": OTHERS,
            "failures": 2 if ctx.quick else 3, "operations tried after closing": len(after_ops(configs()[0]))}


def prepare(ctx):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()
    sys.unraisablehook = lambda *a: None


def run(ctx):
    ctx.parallel([(c.name, k, 4) for c in configs() for k in range(4)], job)
    ctx.sample("buf4: write(9) ; lock(0,3), closed by with-exc, calls answered one/ENOSPC/ok/EIO")


def replay(ctx, data):
    r = data["replay"]
    cfg = [c for c in configs() if c.name == r["config"]][0]
    w = World(ctx)
    gc.disable()
    env, problem = w.run(cfg, tuple(tuple(o) for o in r["pre"]), tuple(r["other"]) if r["other"] else None, r["means"], tuple(r["choices"]), ops=True)
    if problem:
        ctx.violation("replay", problem, r)
