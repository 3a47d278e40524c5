"""P18: the whole-file helpers: arguments and histories against the standard library, system faults, locks during the transfer, threads."""
import array
import errno
import io
import itertools
import os

from .. import core, envs
from ..envs import R
from ..klock import Foreign

LEVEL = "model_checking"
RULE = ("(a) the full product of data, encoding, errors, newline, buffering, locking, existence options and initial contents, for each helper, against "
        "io.open; (b) every placement of up to the stated number of abnormal system answers during each helper; (c) lock observed by another process at "
        "every transfer call; (d) all histories of helper calls; (e) all schedules of two or three threads calling helpers up to the preemption bound")
ASSUMPTIONS = ["the lock is only required between the opening and the last transfer", "after a failed call, only the data that existed before an append is certain"]
io_open = io.open
OLD = b"old \r\ncontent\n\xe9 0123456789 abcdefghij"


# -- (a) arguments ---------------------------------------------------------------------------------------------------

BINARY = [b"", b"a", b"line1\nline2\r\n", bytes(range(256)) * 40, bytearray(b"xyz\n"), memoryview(b"memory"), array.array("I", [1, 2 ** 31]),
          memoryview(array.array("H", range(9)))[::1]]
TEXT = ["", "a", "l1\nl2\r\nl3\r\n\n", "\xe9t\xe9 \u20ac \U0001f600\n", "x\rz" * 3000, "\udc80", "\ufeffbom\n"]
ENCODINGS = [None, "utf-8", "utf-16", "utf-8-sig", "latin-1", "ascii", "utf-32-be", "cp1252"]
NEWLINES = [None, "", "\n", "\r", "\r\n"]
ERRORS = [None, "strict", "ignore", "replace", "surrogateescape"]
BUFFERING = [None, -1, 1, 2, 7, 8192]


def as_bytes(d):
    return d if isinstance(d, str) else bytes(memoryview(d).cast("B"))


class World:
    def __init__(self, ctx):
        self.root = os.path.join(ctx.scratch, "h")
        os.makedirs(self.root, exist_ok=True)
        self.path = os.path.join(self.root, "f")
        self.twin = os.path.join(self.root, "t")
        self.fds = set(os.listdir("/proc/self/fd"))

    def setup(self, content):
        for p in (self.path, self.twin):
            if os.path.exists(p):
                R.unlink(p)
            if content is not None:
                fd = R.open(p, os.O_WRONLY | os.O_CREAT, 0o666)
                R.write(fd, content)
                R.close(fd)

    def content(self, p=None):
        try:
            fd = R.open(p or self.path, os.O_RDONLY)
        except FileNotFoundError:
            return None
        try:
            return R.read(fd, 1 << 20)
        finally:
            R.close(fd)

    def leftovers(self):
        if set(os.listdir("/proc/self/fd")) != self.fds:
            return "a descriptor was left open"
        if os.path.exists(self.path):
            f = Foreign(self.path)
            try:
                if f.seen(0, None):
                    return "a lock was left"
            finally:
                f.close()


def kind(e):
    """what a user can tell of an exception"""
    for c in (UnicodeEncodeError, UnicodeDecodeError, LookupError, FileExistsError, FileNotFoundError, ValueError, TypeError, OSError):
        if isinstance(e, c):
            return c.__name__
    return type(e).__name__


def call(fn, *a, **k):
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("error", kind(e))


def std_write(path, data, append, must_create, must_not_create, kw):
    binary = not isinstance(data, str)
    if binary and any(kw.get(k) is not None for k in ("encoding", "errors", "newline")):
        raise ValueError
    if must_not_create and not os.path.exists(path):
        raise FileNotFoundError
    if must_create and os.path.exists(path):
        raise FileExistsError
    kw = dict(kw)
    if kw.get("buffering") is None:
        kw["buffering"] = -1
    if binary and kw["buffering"] == 1:
        kw["buffering"] = -1          # would only warn
    with io_open(path, ("a" if append else "w") + ("b" if binary else ""), **kw) as f:
        f.write(data)


def std_read(path, binary, kw):
    kw = dict(kw)
    if kw.get("buffering") is None or (binary and kw["buffering"] == 1):
        kw["buffering"] = -1
    with io_open(path, "r" + ("b" if binary else ""), **kw) as f:
        return f.read()


def pick(ctx, kw):
    return {k: v for k, v in kw.items() if v is not None}


def products(quick):
    old = [None, b"", OLD]
    for data in BINARY + TEXT:
        text = isinstance(data, str)
        big = len(data) > 1000
        for enc in ENCODINGS if text else [None, "utf-8"]:
            for err in ERRORS if text else [None, "strict"]:
                for nl in NEWLINES if text else [None, "\n"]:
                    if not text and sum(x is not None for x in (enc, err, nl)) > 1:
                        continue
                    for buf in BUFFERING + [0]:
                        if text and quick and buf in (8192, 1) and (err or nl):
                            continue
                        yield data, dict(encoding=enc, errors=err, newline=nl, buffering=buf)


def check_product(ctx, w, data, kw, states):
    text = isinstance(data, str)
    for fn, old, mc, mnc in ((0, None, False, False), (0, OLD, False, False), (1, None, False, False), (1, b"", False, False), (1, OLD, False, False),
                             (0, None, True, False), (0, OLD, True, False), (0, None, False, True), (0, OLD, False, True), (1, None, False, True),
                             (1, OLD, False, True), (0, OLD, True, True)):
        if (mc or mnc) and (kw["buffering"] not in (None, 0) or kw["errors"] or kw["newline"]):
            continue
        w.setup(old)
        opts = {}
        if mc:
            opts["must_create"] = True
        if mnc:
            opts["must_not_create"] = True
        f = rsfile.append_to_file if fn else rsfile.write_to_file
        locking = not (len(data) % 2)
        got = call(f, w.path, data, locking=locking, sync=(old is None), **opts, **kw)
        if mc and mnc:
            want = ("error", "ValueError")
        else:
            want = call(std_write, w.twin, data, fn, mc, mnc, kw)
            if want[0] == "ok":
                want = ("ok", None)
            if kw["buffering"] == 0 and text and got == ("error", "ValueError"):
                want = got          # refused before or after looking for the file
        ctx.stats.add("executions")
        ctx.stats.add("transitions")
        what = "%s(%.40r, %s) on a file containing %s" % (f.__name__, data, dict(kw, **opts), old and "something" or old)
        if got != want:
            return what + ": %r, with io.open: %r" % (got, want)
        if got[0] == "ok" or want[1] in ("FileNotFoundError", "FileExistsError"):
            if w.content() != w.content(w.twin):
                return what + ": the file contains %.200r, with io.open: %.200r" % (w.content(), w.content(w.twin))
        elif want[1] == "ValueError" and not fn and old is not None and w.content() != old:
            return what + ": refused, but the file was changed"
        p = w.leftovers()
        if p:
            return what + ": " + p
        states.add((w.content(), got))
        if got[0] == "ok":
            for binary in (False, True):
                rkw = dict(kw) if binary != text else {"buffering": kw["buffering"]}
                got = call(rsfile.read_from_file, w.path, binary=binary, locking=locking, **rkw)
                want = call(std_read, w.twin, binary, rkw)
                ctx.stats.add("executions")
                ctx.stats.add("transitions")
                if got != want or type(got[1]) is not type(want[1]):
                    return "read_from_file(binary=%s, %s) of %.80r: %.100r, with io.open: %.100r" % (binary, rkw, w.content(), got, want)
                p = w.leftovers()
                if p:
                    return "read_from_file: " + p


# -- (b), (c): system answers -------------------------------------------------------------------------------------------

class Env:
    def __init__(self, prefix, w, lock):
        self.prefix, self.points = prefix, []
        self.w, self.lock = w, lock
        self.fd = None
        self.problem = None
        self.foreign = None

    def choose(self, n):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((n, c))
        return c

    def __call__(self, name, real, a, kw):
        if name == "open" and os.path.realpath(os.fsdecode(a[0])) == self.w.path:
            self.fd = real(*a, **kw)
            if self.foreign is None:
                self.foreign = Foreign(self.w.path)
            return self.fd
        if self.fd is None or not a or a[0] != self.fd:
            return real(*a, **kw)
        if name == "close":
            self.fd = None
            return real(*a, **kw)
        if name in ("read", "write", "ftruncate", "fsync", "fdatasync"):
            if self.lock is not None and name in ("read", "write", "ftruncate"):
                seen = self.foreign.seen(0, None, shared_request=(self.lock == "W"))
                if not seen:
                    self.problem = self.problem or "%s happens while other processes may lock the file" % name
                elif self.foreign.seen(0, 1, shared_request=(self.lock == "W")) != self.lock or \
                        self.foreign.seen(1 << 40, None, shared_request=(self.lock == "W")) != self.lock:
                    self.problem = self.problem or "%s happens without a lock on the whole file" % name
            n = {"read": 5, "write": 5, "ftruncate": 2, "fsync": 2, "fdatasync": 2}[name]
            c = self.choose(n)
            if c:
                self.last = name
                if c == 1:
                    raise OSError(errno.EIO, "injected")
                if c == 2:
                    raise OSError(errno.EAGAIN, "injected")
                if name == "read":
                    return real(a[0], min(a[1], 1 if c == 3 else 7))
                d = bytes(a[1])
                return real(a[0], d[:1] if c == 3 else d[:max(1, len(d) // 2)])
        return real(*a, **kw)


FDATA = [b"", b"0123456789" * 2, "text\n" * 4, b"q" * 20000, "w\xe9\n" * 6000]
FARGS = [dict(), dict(buffering=0), dict(buffering=3), dict(encoding="utf-16"), dict(newline="\r\n"), dict(buffering=1)]


def fault_configs():
    for fn in ("write", "append", "read", "readbin"):
        for data in FDATA:
            for kw in FARGS:
                text = isinstance(data, str)
                if fn == "readbin" and text or fn == "read" and not text:
                    continue
                if not text and ("encoding" in kw or "newline" in kw or kw.get("buffering") == 1):
                    continue
                if text and kw.get("buffering") == 0:
                    continue
                for sync in (False, True) if fn[0] in "wa" and len(data) < 100 else (False,):
                    yield fn, data, kw, sync, "existing"
                if fn[0] in "wa" and len(data) < 100 and kw in FARGS[:3]:
                    yield fn, data, kw, False, "missing"
                    yield fn, data, kw, False, "must_not_create"
                    if fn == "write":
                        yield fn, data, kw, False, "must_create"


def run_fault(ctx, w, cfg, prefix):
    fn, data, kw, sync, opt = cfg
    opts = {opt: True} if opt.startswith("must") else {}
    old = b"previous content, longer than the new one" if opt in ("existing", "must_not_create") else None
    reading = fn.startswith("read")
    if reading:
        w.setup(None)
        std_write(w.path, data, False, False, False, kw)
        old = w.content()
        data = std_read(w.path, fn == "readbin", kw)
    else:
        w.setup(old)
        w.setup(old)
        std_write(w.twin, data, fn == "append", False, False, kw)
    env = Env(prefix, w, "R" if reading else "W")
    envs.set_hook(env)
    try:
        if reading:
            got = ("ok", rsfile.read_from_file(w.path, binary=fn == "readbin", **kw))
        else:
            got = ("ok", getattr(rsfile, fn + "_to_file")(w.path, data, sync=sync, **opts, **kw))
    except Exception as e:
        got = ("error", e)
    finally:
        envs.set_hook(None)
    if env.foreign is None:
        return env, "the file was not opened: %r" % (got,)
    env.foreign.close()
    faults = [c for n, c in env.points if c]
    if env.problem:
        return env, env.problem
    if got[0] == "error" and not any(c in (1, 2) for c in faults):
        return env, "raised %r though all data could be transferred" % got[1]
    if reading:
        if got[0] == "ok" and (got[1] != data or type(got[1]) is not type(data)):
            return env, "returned %.100r instead of %.100r" % (got[1], data)
        if w.content() != old:
            return env, "reading changed the file"
    else:
        now = w.content()
        if got[0] == "ok" and now != w.content(w.twin):
            return env, "returned, but the file contains %.200r (%d bytes) instead of %.200r" % (now, len(now), w.content(w.twin))
        if got[0] == "ok" and sync and 1 in [c for (n, c) in env.points if n == 2] and getattr(env, "last", "") in ("fsync",):
            return env, "returned though the synchronization failed"
        if fn == "append" and not now.startswith(old or b""):
            return env, "the previous content was damaged: %.200r" % now
    return env, w.leftovers()


def explore_fault(ctx, w, cfg, bound):
    stack = [[]]
    while stack:
        prefix = stack.pop()
        env, problem = run_fault(ctx, w, cfg, prefix)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", len(env.points))
        ctx.stats.add("states", len(env.points) - len(prefix) + 1)
        if problem:
            fn, data, kw, sync, opt = cfg
            ctx.violation("fault:%s:%s" % (fn, problem[:40]), "%s of %.40r, %s, sync=%s, %s, answers %s: %s" % (
                fn, data, kw, sync, opt, [c for n, c in env.points], problem), {"fault": repr(cfg), "prefix": [c for n, c in env.points]})
            return
        choices = [c for n, c in env.points]
        used = sum(1 for c in prefix if c)
        ctx.outcome((cfg[0], tuple(choices[:12])))
        if used < bound:
            for i in range(len(prefix), len(env.points)):
                for alt in range(1, env.points[i][0]):
                    if i > 30:
                        break
                    stack.append(choices[:i] + [alt])


# -- conflicts ---------------------------------------------------------------------------------------------------------

def conflicts(ctx, w):
    for fn in ("write", "append", "read"):
        for shared in (False, True):
            for rng in ((0, None), (3, 4), (100, 101)):
                for locking in (True, False):
                    w.setup(OLD)
                    f = Foreign(w.path)
                    f.lock(rng[0], rng[1], shared)
                    want_error = locking and not (shared and fn == "read")
                    try:
                        if fn == "read":
                            r = rsfile.read_from_file(w.path, binary=True, timeout=0, locking=locking)
                            ok = r == OLD
                        else:
                            getattr(rsfile, fn + "_to_file")(w.path, b"new", timeout=0, locking=locking)
                            ok = w.content() == (b"new" if fn == "write" else OLD + b"new")
                        res = "ok" if ok else "bad result"
                    except rsfile.LockingException:
                        res = "refused" if w.content() == OLD else "refused but the file changed"
                    except Exception as e:
                        res = repr(e)
                    f.close()
                    ctx.stats.add("executions")
                    ctx.stats.add("transitions")
                    ctx.outcome((fn, shared, rng, locking, res))
                    if res != ("refused" if want_error else "ok"):
                        ctx.violation("conflict:" + fn, "%s, another process holding %s %s, locking=%s: %s" % (
                            fn, "a shared lock" if shared else "a lock", rng, locking, res), {"conflict": fn})
                    p = w.leftovers()
                    if p:
                        ctx.violation("conflict:left", p, {"conflict": fn})


# -- (d) histories -----------------------------------------------------------------------------------------------------

HOPS = [("write", b"bin\r\n", {}), ("write", "t\xe9xt\n", dict(encoding="utf-8")), ("write", "", {}), ("write", b"0123456789" * 900, dict(buffering=0)),
        ("write", "u\n", dict(encoding="utf-16")), ("append", b"+a", {}), ("append", "+t\n", dict(newline="\r\n")), ("append", "v\n", dict(encoding="utf-16")),
        ("append", b"", dict(must_not_create=True)), ("append", "w\n", dict(encoding="utf-8-sig", buffering=3)),
        ("write", b"c", dict(must_create=True)), ("write", b"n", dict(must_not_create=True)), ("append", b"N", dict(must_not_create=True)),
        ("read", True, {}), ("read", False, dict(encoding="latin-1", newline="")), ("read", False, dict(encoding="utf-8", errors="replace")),
        ("read", False, dict(encoding="utf-16", errors="ignore")), ("unlink",)]


def history(ctx, w, h, states):
    w.setup(None)
    for i, op in enumerate(h):
        if op[0] == "unlink":
            for p in (w.path, w.twin):
                if os.path.exists(p):
                    R.unlink(p)
            continue
        _, x, kw = op
        kw = dict(kw)
        if op[0] == "read":
            got = call(rsfile.read_from_file, w.path, binary=x, **kw)
            want = call(std_read, w.twin, x, kw)
        else:
            f = rsfile.append_to_file if op[0] == "append" else rsfile.write_to_file
            got = call(f, w.path, x, **kw)
            k2 = dict(kw)
            want = call(std_write, w.twin, x, op[0] == "append", k2.pop("must_create", False), k2.pop("must_not_create", False), k2)
            if want[0] == "ok":
                want = ("ok", None)
        if got != want:
            return "after %s, %s gives %.200r, the standard library %.200r" % (h[:i], op, got, want)
        if w.content() != w.content(w.twin):
            return "after %s the file contains %.200r instead of %.200r" % (h[:i + 1], w.content(), w.content(w.twin))
        ctx.stats.add("transitions")
    states.add(w.content())


def job(ctx, j):
    w = World(ctx)
    states = set()
    if j[0] == "product":
        _, k, n = j
        for i, (data, kw) in enumerate(products(ctx.quick)):
            if i % n == k:
                p = check_product(ctx, w, data, kw, states)
                if p:
                    ctx.violation("product:" + p.split("(")[0], p, {"product": i})
    elif j[0] == "fault":
        cfg = list(fault_configs())[j[1]]
        explore_fault(ctx, w, cfg, 2 if ctx.quick else 3)
    elif j[0] == "conflict":
        conflicts(ctx, w)
    elif j[0] == "history":
        _, k, n, depth = j
        for i, h in enumerate(itertools.product(HOPS, repeat=depth)):
            if i % n == k:
                p = history(ctx, w, h, states)
                ctx.stats.add("executions")
                if p:
                    ctx.violation("history", p, {"history": i, "depth": depth})
                    return
    ctx.stats.add("states", len(states))
    for s in states:
        ctx.outcome(s)


def sequential(ctx):
    import warnings
    warnings.simplefilter("ignore")
    envs.install()
    global rsfile
    rsfile = core.import_rsfile()
    import multiprocessing.context
    jobs = [("history", k, 32, 3 if ctx.quick else 4) for k in range(32)] + [("product", k, 32) for k in range(32)] + \
        [("fault", i) for i in range(len(list(fault_configs())))] + [("conflict",)]
    ctx.parallel(jobs, job)


# -- (e) threads -------------------------------------------------------------------------------------------------------

A, B, C = b"A" * 7, b"B" * 5, b"C" * 4
PROGRAMS = {
    "write-read": ([("write", A)], [("read",)]),
    "write-read2": ([("write", A)], [("read",), ("read",)]),
    "write-write": ([("write", A)], [("write", B)]),
    "write-write-read": ([("write", A)], [("write", B)], [("read",)]),
    "append-append": ([("append", A)], [("append", B)]),
    "append-append-append": ([("append", A)], [("append", B)], [("append", C)]),
    "append2": ([("append", A), ("append", B)], [("append", C)]),
    "append-read": ([("append", A)], [("read",), ("append", B)]),
    "write-append": ([("write", A)], [("append", B)]),
    "write-append-read": ([("write", A)], [("append", B)], [("read",)]),
    "text": ([("append", "x\ny\n")], [("append", "z\n\n")]),
    "unbuffered": ([("append0", A)], [("append0", B)]),
    "unbuffered-write": ([("write0", A)], [("append0", B)], [("read",)]),
    "stream": ([("stream", A)], [("stream", B)]),
    "stream-helper": ([("stream", A)], [("append", B)]),
    "stream-text": ([("streamtext", "x\ny\n")], [("streamtext", "z\n\n")]),
    "stream-plus": ([("streammode", A, "RAB", 3)], [("streammode", B, "RAB", 3)]),
    "stream-mixed": ([("streammode", A, "ab+", 0)], [("streammode", B, "AB", 3)]),
    "stream-text-plus": ([("streammode", "x\ny\n", "a+", 4)], [("streammode", "z\n\n", "RWA", 4)]),
    "stream-sync": ([("streammode", A, "RASB", 0)], [("streammode", B, "RAB", 0)]),
    "write-error": ([("writebad",), ("write", A)], [("read",)]),
}


def step(path, op, out):
    k = op[0]
    if k == "read":
        out.append(rsfile.read_from_file(path, binary=True))
    elif k == "write":
        rsfile.write_to_file(path, op[1])
    elif k == "write0":
        rsfile.write_to_file(path, op[1], buffering=0)
    elif k == "append":
        rsfile.append_to_file(path, op[1])
    elif k == "append0":
        rsfile.append_to_file(path, op[1], buffering=0)
    elif k in ("stream", "streamtext"):
        with rsfile.rsopen(path, "A" if k == "streamtext" else "AB") as f:
            f.write(op[1][:3])
            f.write(op[1][3:])
    elif k == "streammode":
        with rsfile.rsopen(path, op[2], buffering=op[3]) as f:
            d = op[1]
            for d in (op[1][:3], op[1][3:]):
                while d:
                    d = d[f.write(d):]
    elif k == "writebad":
        try:
            rsfile.write_to_file(path, "\udc00", must_create=True)
        except FileExistsError:
            pass


def serial_results(path, programs):
    res = set()

    def rec(pos, content, outs):
        done = True
        for i, p in enumerate(programs):
            if pos[i] < len(p):
                done = False
                op = p[pos[i]]
                d = op[1] if len(op) > 1 else b""
                d = d.encode() if isinstance(d, str) else d
                o2, c2 = outs, content
                if op[0] == "read":
                    o2 = outs[:i] + (outs[i] + (content,),) + outs[i + 1:]
                elif op[0] in ("write", "write0"):
                    c2 = d
                elif op[0] != "writebad":
                    c2 = content + d
                rec(pos[:i] + (pos[i] + 1,) + pos[i + 1:], c2, o2)
        if done:
            res.add((content, outs))
    rec((0,) * len(programs), b"0123", ((),) * len(programs))
    return res


def run_threads(ctx, name, bound, shard=(0, 1), prefix=None, lines=()):
    from .. import sched
    programs = PROGRAMS[name]
    path = os.path.join(ctx.scratch, "thr")
    allowed = serial_results(path, programs)
    for p in programs:           # modules and caches filled by a first use don't depend on the schedule
        for op in p:
            rsfile.write_to_file(path, b"")
            step(path, op, [])

    def fault(t, nm, real, a, kw):
        if nm == "write":
            return sched.ENGINE.perform(t, nm, real, (a[0], bytes(a[1])[:3]), kw)
        if nm == "read":
            return sched.ENGINE.perform(t, nm, real, (a[0], min(a[1], 3)), kw)
        return sched.ENGINE.perform(t, nm, real, a, kw)

    def make():
        fd = R.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o666)
        R.write(fd, b"0123")
        R.close(fd)
        outs = [[] for _ in programs]

        def body(i):
            def f():
                for op in programs[i]:
                    step(path, op, outs[i])
            return f

        def check(x):
            for t in x.threads:
                if t.error is not None and not x.failure:
                    return "thread %s: %r" % (t.name, t.error)
            if x.failure:
                return x.failure
            fd = R.open(path, os.O_RDONLY)
            got = (R.read(fd, 1000), tuple(tuple(o) for o in outs))
            R.close(fd)
            ctx.outcome((name, got))
            if got not in allowed:
                return "file %r, reads %r match no serial order" % got
            f = Foreign(path)
            left = f.seen(0, None)
            f.close()
            if left:
                return "a lock was left"
        return [body(i) for i in range(len(programs))], check, None

    def on_done(x, problem, choices):
        trace = ["%s@%s->%s" % l for l in x.labels if l[0] != l[2]]
        ctx.violation("threads:" + name, "threads %s: %s   [switches: %s]" % (name, problem, ", ".join(trace)[:600]),
                      {"threads": name, "choices": choices, "bound": bound, "lines": bool(lines)})
    old, sched.Execution.fault = sched.Execution.fault, staticmethod(fault)
    try:
        if prefix is not None:
            bodies, check, _ = make()
            x = sched.Execution(bodies, prefix, lines, bound=bound).run()
            p = x.failure or check(x)
            if p:
                on_done(x, p, prefix)
        else:
            sched.explore(ctx, make, bound, lines, shard, on_done)
    finally:
        sched.Execution.fault = old


def threads(ctx, names=None):
    from .. import sched
    sched.install()
    global rsfile
    rsfile = core.import_rsfile()
    ctx.pin = True
    names = names or sorted(PROGRAMS)
    jobs = [(n, 2 if ctx.quick else 3, k, 4, False) for n in names for k in range(4)] + [(n, 1, k, 2, True) for n in names for k in range(2)]
    jobs.sort(key=lambda j: -len(PROGRAMS[j[0]]))
    ctx.parallel(jobs, lambda c, j: run_threads(c, j[0], j[1], (j[2], j[3]), lines=(core.SRC + "/rsfile/",) if j[4] else ()))


APPENDERS = ["append-append", "append-append-append", "append2", "text", "unbuffered", "stream", "stream-helper", "stream-text",
             "stream-plus", "stream-mixed", "stream-text-plus", "stream-sync"]


def bounds(ctx):
    return {"argument combinations": sum(1 for _ in products(ctx.quick)), "abnormal answers": 2 if ctx.quick else 3,
            "history alphabet": len(HOPS), "history depth": 3 if ctx.quick else 4, "thread programs": len(PROGRAMS),
            "preemptions": {"system calls and mutexes": 2 if ctx.quick else 3, "source lines": 1}}


def prepare(ctx):
    pass


def run(ctx):
    ctx.phase(sequential)
    if not ctx.violations:
        ctx.phase(threads)
    ctx.sample("append_to_file('w\\n', encoding='utf-8-sig', buffering=3) after write_to_file(b'bin\\r\\n'), against io.open")


def replay(ctx, data):
    import pickle
    r = data["replay"]
    if "threads" in r:
        from .. import sched
        sched.install()
        global rsfile
        rsfile = core.import_rsfile()
        run_threads(ctx, r["threads"], r["bound"], prefix=r["choices"], lines=(core.SRC + "/rsfile/",) if r["lines"] else ())
        return
    envs.install()
    rsfile = core.import_rsfile()
    import warnings
    warnings.simplefilter("ignore")
    j, _ = pickle.loads(bytes.fromhex(data["pickle"]))
    job(ctx, j)
