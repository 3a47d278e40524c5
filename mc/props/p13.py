"""P13: every placement of short, would-block, failing and interrupted reads and writes below the streams."""
import errno
import itertools
import os

from .. import core, envs, hist
from ..envs import R

LEVEL = "fault_enumeration"
RULE = ("every history up to a depth, and for each every placement of up to k abnormal answers (one byte transferred, one byte missing, EAGAIN, "
        "ENOSPC or EIO, an exception raised by a signal handler) among the read and write system calls it makes, explored as a tree; the "
        "observed calls are compared with a nondeterministic byte-file model. Non-trivial: an abnormal answer was given")
ASSUMPTIONS = ["after a buffered read failed with an exception, the position is only specified again by an absolute seek, as in the standard library",
               "a buffered write that failed with an error other than BlockingIOError may have accepted any prefix of its data"]


class Boom(Exception):
    """what a signal handler raises in the middle of a call"""


WRITE = ["full", "one", "allbutone", "eagain", "enospc", "boom"]
READ = ["full", "one", "allbutone", "eagain", "eio", "boom"]


class Env:
    """one execution: follows `prefix`, then answers normally; records the alternatives met"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []         # (alternatives, chosen)
        self.armed = False
        self.blocked = False
        self.fds = set()
        self.nogrow = False

    def choose(self, alts):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((alts, c))
        if c >= len(alts):
            raise core.HarnessError("replay diverged")
        return alts[c]

    def __call__(self, name, real, a, kw):
        if self.nogrow and name in ("ftruncate", "posix_fallocate", "truncate"):
            if name == "ftruncate" and a[1] <= R.fstat(a[0]).st_size:
                return real(*a, **kw)
            return None
        if not self.armed or a[0] not in self.fds:
            return real(*a, **kw)
        if name in ("write", "pwrite", "writev", "pwritev"):
            n = memoryview(a[1]).nbytes if name in ("write", "pwrite") else None
            if n is None:
                raise core.HarnessError("vectored write")
            ans = self.choose([w for w in WRITE if not (w == "one" and n < 2 or w == "allbutone" and n < 3 or n == 0 and w != "full")])
            if ans in ("one", "allbutone"):
                k = 1 if ans == "one" else n - 1
                return real(a[0], bytes(memoryview(a[1]).cast("B")[:k]), *a[2:])
        elif name in ("read", "pread"):
            n = a[1]
            ans = self.choose([w for w in READ if not (w == "one" and n < 2 or w == "allbutone" and (n < 3 or n > 64) or n == 0 and w != "full")])
            if ans in ("one", "allbutone"):
                return real(a[0], 1 if ans == "one" else n - 1, *a[2:])
        else:
            return real(*a, **kw)
        if ans == "full":
            return real(*a, **kw)
        if ans == "eagain":
            self.blocked = True
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if ans == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        if ans == "eio":
            raise OSError(errno.EIO, "Input/output error")
        raise Boom()


class State:
    __slots__ = ("data", "pos", "a")

    def __init__(self, data, pos, a):
        self.data, self.pos, self.a = data, pos, a

    def write(self, b):
        if not b:
            return self
        pos = len(self.data) if self.a else self.pos
        d = self.data + bytes(max(0, pos - len(self.data)))
        return State(d[:pos] + b + d[pos + len(b):], pos + len(b), self.a)

    def at(self, pos):
        return State(self.data, pos, self.a)

    def key(self):
        return (self.data, self.pos)


class Config:
    def __init__(self, name, mode, buffering, safe=False, pipe=False, nogrow=False):
        self.name, self.mode, self.buffering, self.safe, self.pipe, self.nogrow = name, mode, buffering, safe, pipe, nogrow
        self.raw = buffering == 0
        self.text = "T" in mode
        self.r, self.w, self.a = "R" in mode, "W" in mode or "A" in mode, "A" in mode


INITIAL = b"abcdefghij"

OPS = [("write", 2), ("write", 5), ("write", 11), ("writelines", 3), ("flush",), ("seek", 0), ("seek", 3), ("seek", 12), ("read", 2), ("read", 7), ("read", -1),
       ("readinto", 5), ("truncate", 4), ("truncate", 14), ("size",), ("tell",)]
PIPE_OPS = [("write", 2), ("write", 5), ("write", 11), ("writelines", 3), ("flush",), ("read", 2), ("read", 7), ("readinto", 5), ("read", -1)]


def configs():
    return [Config("raw", "RWB", 0), Config("raw-append", "AB", 0), Config("raw-safe", "RWB", 0, True), Config("buf4", "RWB", 4), Config("buf3-safe", "RWB", 3, True),
            Config("writer4", "WB", 4), Config("append4", "RAB", 4), Config("reader4", "RB", 4), Config("reader", "RB", -1), Config("text4", "WT", 4),
            Config("text", "WT", -1), Config("line", "WT", 1), Config("bufdef", "RWB", -1), Config("zerofill", "WB", 0, nogrow=True), Config("zerofill4", "WB", 4, nogrow=True),
            Config("pipe-raw-w", "WB", 0, pipe=True), Config("pipe-w4", "WB", 4, pipe=True), Config("pipe-raw-r", "RB", 0, pipe=True),
            Config("pipe-r4", "RB", 4, pipe=True), Config("pipe-text-w", "WT", 4, pipe=True)]


def alphabet(cfg):
    ops = PIPE_OPS if cfg.pipe else OPS
    res = []
    for op in ops:
        if op[0] in ("write", "writelines", "truncate") and not cfg.w:
            continue
        if op[0] in ("read", "readinto") and (not cfg.r or cfg.text):
            continue
        if cfg.pipe and op == ("read", -1):
            continue        # would wait for the end of the pipe
        if cfg.nogrow and op[0] in ("seek", "flush", "writelines"):
            continue
        res.append(op)
    if cfg.nogrow:
        res += [("truncate", 30)]
    return res


def plans(quick):
    """(history depth, abnormal answers)"""
    return [(3, 2), (2, 3)] if quick else [(4, 2), (3, 3), (2, 4), (1, 5)]


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.path = os.path.join(ctx.scratch, "data")
        self.hfd = R.open(self.path, os.O_RDWR | os.O_CREAT, 0o644)

    def content(self):
        return R.pread(self.hfd, 1 << 20, 0)

    def run(self, cfg, history, prefix):
        """(env, None or (index, problem))"""
        env = Env(prefix)
        env.nogrow = cfg.nogrow
        self.other = None
        self.got = b""
        kw = dict(buffering=cfg.buffering, locking=False, thread_safe=cfg.safe)
        if cfg.text:
            kw.update(encoding="ascii", newline="")
        if cfg.pipe:
            r, w = os.pipe()
            fd, self.other = (w, r) if cfg.w else (r, w)
            st = rsfile.rsopen(None, cfg.mode, fileno=fd, **kw)
            if cfg.r:
                R.write(self.other, INITIAL)
                R.close(self.other)
                self.other = None
            states = [State(b"" if cfg.w else INITIAL, 0, False)]
        else:
            R.ftruncate(self.hfd, 0)
            R.pwrite(self.hfd, INITIAL, 0)
            st = rsfile.rsopen(self.path, cfg.mode, **kw)
            states = [State(INITIAL, len(INITIAL) if cfg.a else 0, cfg.a)]
        env.fds = {st.fileno()}
        envs.set_hook(env)
        try:
            env.armed = True
            stale = False
            for i, op in enumerate(history):
                env.blocked = False
                n0 = len(env.points)
                states, problem, stale = self.step(cfg, env, st, states, i, op)
                if problem:
                    return env, (i, problem)
                if stale:
                    break
            env.armed = False
            return env, self.final(cfg, st, states, len(history))
        finally:
            env.armed = False
            try:
                st.close()
            except Exception:
                pass
            envs.set_hook(None)
            if self.other is not None:
                R.close(self.other)

    def drain(self):
        os.set_blocking(self.other, False)
        while True:
            try:
                d = R.read(self.other, 65536)
            except BlockingIOError:
                return
            if not d:
                return
            self.got += d

    def final(self, cfg, st, states, n):
        if cfg.w:
            try:
                st.flush()
            except Exception as e:
                return n, "a final flush without any fault raised %r" % e
        if cfg.pipe:
            if cfg.w:
                self.drain()
                if not any(s.data == self.got for s in states):
                    return n, "after a final flush %r was transferred instead of %s" % (self.got, self.show(states))
            else:
                rest = st.read(100)
                if not any(s.data[s.pos:] == (rest or b"") for s in states) and not self.stale:
                    return n, "a final read returns %r instead of %s" % (rest, [s.data[s.pos:] for s in states])
            return None
        if not any(s.data == self.content() for s in states):
            return n, "after a final flush the file contains %r instead of %s" % (self.content(), self.show(states))
        if not self.stale and not cfg.text:
            t = st.tell()
            c = self.content()
            if not any(s.data == c and (s.pos == t) for s in states):
                return n, "after a final flush tell() returns %r instead of %r" % (t, [s.pos for s in states if s.data == c])
        if cfg.r and not cfg.text:
            st.seek(0)
            d = st.read(100)
            if d != self.content():
                return n, "a final read returns %r instead of %r" % (d, self.content())
        return None

    def show(self, states):
        return " or ".join(sorted({repr(s.data) for s in states})[:4])

    def step(self, cfg, env, st, states, i, op):
        name = op[0]
        self.stale = False
        conv = (lambda b: b.decode()) if cfg.text else bytes
        exc = ret = None
        buf = None
        try:
            if name == "write":
                data = hist.payload(i, op[1])
                ret = st.write(conv(data))
            elif name == "writelines":
                data = hist.payload(i, op[1]) + hist.payload(i + 7, 4)
                ret = st.writelines([conv(data[:op[1]]), conv(data[op[1]:])])
            elif name == "readinto":
                buf = bytearray(b"#" * op[1])
                ret = st.readinto(buf)
            elif name in ("seek", "read", "truncate"):
                ret = getattr(st, name)(op[1])
            else:
                ret = getattr(st, name)()
        except (OSError, Boom, AssertionError) as e:
            exc = e
        new = {}

        def add(s):
            new[s.key()] = s
        problem = None
        blocking = isinstance(exc, BlockingIOError)
        if isinstance(exc, AssertionError) and not (cfg.nogrow and name == "truncate"):
            return states, "%s raised %r" % (name, exc), False
        if name == "write":
            if exc is None:
                if cfg.raw:
                    if ret is None:
                        if not env.blocked:
                            problem = "write returned None although the system never said it would block"
                        for s in states:
                            add(s)
                    elif not (0 < ret <= len(data)):
                        problem = "write returned %r" % (ret,)
                    elif env.blocked:
                        problem = "write returned %r although the system would have blocked" % (ret,)
                    else:
                        for s in states:
                            add(s.write(data[:ret]))
                else:
                    if ret != len(data):
                        problem = "write returned %r instead of %d" % (ret, len(data))
                    for s in states:
                        add(s.write(data))
            elif blocking:
                k = exc.characters_written if hasattr(exc, "characters_written") else 0
                if cfg.raw:
                    k = 0
                if not 0 <= k <= len(data):
                    problem = "write raised %r reporting %r characters" % (exc, k)
                else:
                    for s in states:
                        add(s.write(data[:k]))
            else:
                for s in states:
                    for k in range(len(data) + 1 if not cfg.raw else 1):
                        add(s.write(data[:k]))
        elif name == "writelines":
            for s in states:
                if exc is None and not cfg.raw:
                    add(s.write(data))
                elif exc is None:
                    # raw writelines may transfer less of each line, as that of the standard library
                    for k in range(op[1] + 1):
                        for l in range(len(data) - op[1] + 1):
                            add(s.write(data[:k] + data[op[1]:op[1] + l]))
                else:
                    for k in range(len(data) + 1):
                        add(s.write(data[:k]))
                    if cfg.raw:
                        for k in range(op[1] + 1):
                            add(s.write(data[:k]))
        elif name in ("read", "readinto"):
            n = op[1]
            if exc is not None:
                self.stale = not cfg.raw or n < 0
                for s in states:
                    add(s)
                if cfg.raw and n >= 0 and not self.stale:
                    pass
            elif ret is None:
                if not env.blocked:
                    problem = "%s returned None although the system never said it would block" % name
                for s in states:
                    add(s)
            else:
                if name == "readinto":
                    d = bytes(buf[:ret])
                    if bytes(buf[ret:]) != b"#" * (n - ret):
                        problem = "readinto returned %r but filled %r" % (ret, bytes(buf))
                else:
                    d = ret
                if not isinstance(d, bytes):
                    problem = "%s returned %r" % (name, d)
                for s in states:
                    rest = s.data[s.pos:]
                    if not rest.startswith(d) or (n >= 0 and len(d) > n):
                        continue
                    if not d and rest and n != 0:
                        continue          # reported as end of file
                    if len(d) < min(len(rest), n if n >= 0 else len(rest)) and not env.blocked and (not cfg.raw or n < 0):
                        if not (cfg.pipe and name == "readinto"):
                            continue      # cut short for no reason
                    add(s.at(s.pos + len(d)))
                if not new and not problem:
                    problem = "%s(%r) returned %r%s, next bytes are %s" % (name, n, ret if name == "read" else d,
                                                                          " after a would-block answer" if env.blocked else "",
                                                                          [s.data[s.pos:] for s in states][:3])
        elif name == "truncate":
            for s in states:
                if exc is None:
                    d = s.data[:op[1]]
                    d += bytes(op[1] - len(d))
                    if ret != op[1]:
                        problem = "truncate returned %r" % (ret,)
                    add(State(d, s.pos, s.a))
                else:
                    add(s)
                    if cfg.nogrow:
                        for k in range(1, op[1] - len(s.data) + 1):
                            add(State(s.data + bytes(k), s.pos, s.a))
        elif name == "seek":
            for s in states:
                if exc is None:
                    if ret != op[1]:
                        problem = "seek returned %r" % (ret,)
                    add(s.at(op[1]))
                else:
                    add(s)
        elif name in ("tell", "size"):
            for s in states:
                want = s.pos if name == "tell" else len(s.data)
                if exc is not None or (name == "tell" and (cfg.a or cfg.text)) or ret == want:
                    add(s)
            if not new:
                problem = "%s() returned %r" % (name, ret)
        elif name == "flush":
            for s in states:
                add(s)
            if exc is None and env.blocked:
                problem = "flush returned although the system would have blocked"
        states = list(new.values())
        if problem:
            return states, problem, False
        # what has reached the file must be consistent at any time
        if not cfg.pipe and (cfg.raw or (name in ("flush", "size", "truncate") and exc is None)):
            c = self.content()
            states = [s for s in states if s.data == c]
            if not states:
                return list(new.values()), "%s %s; the file contains %r instead of %s" % (
                    name, "raised %r" % exc if exc else "returned %r" % (ret,), c, self.show(new.values())), False
        return states, None, self.stale


def explore(ctx, w, cfg, history, maxdev):
    stack = [()]
    while stack:
        prefix = stack.pop()
        env, res = w.run(cfg, history, prefix)
        ctx.stats.add("executions")
        choices = tuple(c for _, c in env.points)
        used = sum(1 for c in choices if c)
        if used:
            ctx.stats.add("nontrivial")
            ctx.outcome((cfg.name, tuple(alts[c] for alts, c in env.points if c)))
        if res:
            i, problem = res
            answers = [alts[c] for alts, c in env.points]
            key = "%s:%s" % (cfg.name, history[i][0] if i < len(history) else "end")
            ctx.violation(key, "stream %s (mode %s, buffering %d), calls answered %s: after %s: %s" % (
                cfg.name, cfg.mode, cfg.buffering, "/".join(answers), hist.fmt(history[:i + 1]), problem),
                {"config": cfg.name, "history": [list(o) for o in history], "choices": list(choices)})
            return True
        if used < maxdev:
            for i in range(len(prefix), len(env.points)):
                for alt in range(1, len(env.points[i][0])):
                    stack.append(choices[:i] + (alt,))


def job(ctx, j):
    name, d, k, first = j
    cfg = [c for c in configs() if c.name == name][0]
    w = World(ctx)
    for tail in itertools.product(alphabet(cfg), repeat=d - 1):
        if explore(ctx, w, cfg, (first,) + tail, k):
            break
    R.close(w.hfd)


def bounds(ctx):
    return {"streams": {c.name: len(alphabet(c)) for c in configs()}, "(history depth, abnormal answers)": plans(ctx.quick)}


def prepare(ctx):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()


def run(ctx):
    ctx.parallel([(c.name, d, k, f) for d, k in plans(ctx.quick) for c in configs() for f in alphabet(c)], job)
    ctx.sample("buf4: write(11) ; seek(3) ; read(7), answers one/eagain/full/eio")


def replay(ctx, data):
    r = data["replay"]
    cfg = [c for c in configs() if c.name == r["config"]][0]
    w = World(ctx)
    h = tuple(tuple(o) for o in r["history"])
    env, res = w.run(cfg, h, tuple(r["choices"]))
    if res:
        ctx.violation("replay", "%s: %s" % (hist.fmt(h[:res[0] + 1]), res[1]), r)
