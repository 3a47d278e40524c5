"""P22: the Windows backend, over a model of the Win32 API, next to the Unix backend over the real kernel."""
import errno as E
import gc
import importlib
import itertools
import os
import stat

from .. import core
from .. import win32

LEVEL = "model_checking"
RULE = ("for both Win32 bindings: every sequence of exactly `depth` calls over an alphabet, in each mode and layer, on the Windows streams (over the modelled kernel) and on the Unix ones (over real files); results, positions, "
        "sizes and contents compared after every call; every opening mode over every state of the entry; every sequence of lockings with the native lock table compared with the ranges granted; every native call "
        "of every script failing in turn with each code; a state is a distinct (content, position, locks, descriptors) observation")
ASSUMPTIONS = ["the Win32 API and the C runtime behave as Microsoft documents them: bytes skipped over or added by moving the end of a file are undefined; locks are mandatory and belong to handles; closing a C descriptor closes its handle",
               "pywin32 is represented by its documented interface (signed locking words, errors without errno, a SetEndOfFile() which doesn't raise)",
               "a C descriptor made for a handle which must not be closed can't be released"]

BINDINGS = ("ctypes", "pywin32")
INF = (1 << 64) - 1
CONTENT = b"0123456789"


def W(name, *args):
    return (name,) + args


RAW = [W("read", 3), W("read", -1), W("readinto", 4), W("write", b"xyz"), W("write", b""), W("seek", 0), W("seek", 2, 1), W("seek", -1, 2), W("seek", 13), W("seek", -5), W("seek", 1, 7), W("tell"),
       W("truncate"), W("truncate", 2), W("truncate", 15), W("truncate", 17, False), W("truncate", -1), W("size"), W("close"), W("readall")]
MORE = [W("sync"), W("sync", False, False), W("flush"), W("fileno"), W("handle"), W("unique_id"), W("times"), W("readable"), W("isatty"), W("lock", 0, None, 0), W("unlock", None, 0)] + RAW[:4] + RAW[5:7] + RAW[12:15] + [W("close")]
BUF = [W("read", 3), W("read", -1), W("read1", 2), W("peek"), W("readline"), W("write", b"xyz"), W("write", b"0123456789ab"), W("seek", 0), W("seek", 2, 1), W("seek", -1, 2), W("seek", 13), W("tell"), W("truncate"),
       W("truncate", 2), W("truncate", 15), W("size"), W("flush"), W("sync"), W("close")]
HUGE = [W("seek", 1 << 31), W("seek", (1 << 32) + 5), W("seek", (1 << 63) - 1), W("seek", 1 << 63), W("seek", 1 << 64), W("seek", (1 << 64) + 3), W("seek", -1, 1), W("seek", 5, 1), W("seek", (1 << 32) + 7, 1), W("seek", -(1 << 32), 1),
        W("seek", -(1 << 32), 2), W("truncate", (1 << 32) + 3, False), W("truncate", (1 << 31), False), W("truncate", 3), W("truncate", 1 << 64, False), W("truncate", (1 << 63) - 1, False), W("tell"), W("size"), W("read", 2)]
MODES = ["RNB", "RB", "WB", "RWB", "RWEB", "AB", "RAB", "RWCB", "WESB", "WNB"]
RANGES = [(None, 0), (3, 0), (2, 2), (1, 5), (None, 4), (5, (1 << 32) - 2), (1 << 31, 7), ((1 << 33) + 1, 6), (1, (1 << 40) + 9)]


def load(binding):
    return win32.load(binding, importlib.import_module)


_loaded = {}


def get(ctx, binding):
    key = (os.getpid(), binding)
    if key not in _loaded:
        core.import_rsfile()
        _loaded.clear()
        _loaded[key] = Harness(ctx, binding)
    return _loaded[key]


class Harness:
    def __init__(self, ctx, binding):
        self.unix, self.win, self.modules = load(binding)
        self.binding = binding
        self.dir = os.path.join(ctx.scratch, "p22-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.path = os.path.join(self.dir, "f")
        for m in (self.unix, self.win):
            m.set_rsfile_options(default_spinlock_delay=0)


def kind(e):
    n = type(e).__name__
    if n == "LockingException":
        return "locking"
    if isinstance(e, OSError) and isinstance(e, ValueError):
        return "unsupported"
    if isinstance(e, (ValueError, TypeError)):
        return "value"
    if isinstance(e, OSError):
        return ("os", e.errno)
    return n


def call(s, op, opened):
    """(outcome, value)"""
    name, args = op[0], op[1:]
    try:
        if name == "readinto":
            b = bytearray(args[0])
            n = s.readinto(b)
            v = (n, bytes(b))
        elif name == "peek":
            v = bytes(s.peek(1))[:1]
        elif name == "truncate":
            v = s.truncate(*args[:1], **({"zero_fill": args[1]} if len(args) > 1 else {}))
        elif name == "fileno":
            v = s.fileno() == s.fileno() and type(s.fileno()) is int
        elif name == "handle":
            v = None
            s.handle()
        elif name == "unique_id":
            v = s.unique_id() == s.unique_id() and len(s.unique_id()) == 2
        elif name == "times":
            v = (s.times().access_time > 0, s.times().modification_time > 0)
        elif name == "lock":
            s.lock_file(timeout=args[0], length=args[1], offset=args[2])
            v = None
        elif name == "unlock":
            v = s.unlock_file(length=args[0], offset=args[1])
        else:
            v = getattr(s, name)(*args)
        return ("ok", v)
    except Exception as e:
        k = kind(e)
        e.__traceback__ = None
        e = None
        return ("raises", k)


def alike(u, w, op, opened):
    if u == w:
        return True
    if op[0] == "read" and u == ("raises", ("os", E.EINVAL)) and w == ("ok", b""):
        return True         # Unix refuses to read across the largest offset
    if op[0] == "sync" and w == ("raises", ("os", E.EACCES)) and not opened.writable:
        return True         # Win32 only flushes through writable handles
    if u[0] == w[0] == "raises":
        if op[0] == "handle":
            return True
        return {u[1], w[1]} <= {"locking", ("os", E.EACCES), ("os", E.EAGAIN)} or {u[1], w[1]} == {"value", "RuntimeError"}
    if op[0] == "handle" and u[0] == "raises" and u[1] == "unsupported":
        return w[0] == "ok"         # there are no handles on Unix
    return False


def opening(h, where, mode, buffering, **kw):
    try:
        return ("ok", None), where.rsopen(h.path if where is h.unix else "f", mode, buffering=buffering, **kw)
    except Exception as e:
        k = kind(e)
        e.__traceback__ = None
        return ("raises", k), None


class Run:
    """The same stream on both sides."""

    def __init__(self, ctx, h, mode, buffering, content, max_io=None, first=0x40, **kw):
        self.ctx, self.h, self.mode, self.buffering = ctx, h, mode, buffering
        self.label = "%s %s buffering=%s%s" % (h.binding, mode, buffering, " max_io=%d" % max_io if max_io else "")
        self.k = win32.use(win32.Kernel(first))
        self.k.max_io = max_io
        if os.path.exists(h.path):
            os.unlink(h.path)
        if content is not None:
            self.k.make("f", content)
            fd = os.open(h.path, os.O_WRONLY | os.O_CREAT, 0o644)
            os.write(fd, content)
            os.close(fd)
        kw = dict(locking=False, thread_safe=False, **kw)
        a, self.u = opening(h, h.unix, mode, buffering, **kw)
        b, self.w = opening(h, h.win, mode, buffering, **kw)
        self.bad = None
        self.writable = bool(set("WA") & set(mode))
        if a[0] != b[0]:
            self.bad = "opening gives %s where Unix gives %s" % (b, a)

    def contents(self):
        fd = os.open(self.h.path, os.O_RDONLY)
        try:
            size = os.fstat(fd).st_size
            return (size, os.pread(fd, 4096, 0)), (self.k.names["f"].size, self.k.names["f"].get(0, 4096))
        finally:
            os.close(fd)

    def step(self, op, compare_files):
        f = self.k.names.get("f")
        before = f.size
        a, b = call(self.u, op, self), call(self.w, op, self)
        if op[0] == "truncate" and len(op) > 2 and op[2] is False and f.size > before:
            f.settle(before, f.size)
        if not alike(a, b, op, self):
            self.bad = "%s%r gives %s where the Unix streams give %s" % (op[0], op[1:], b, a)
        elif compare_files or op[0] in ("close", "flush", "sync", "size"):
            x, y = self.contents()
            if x != y:
                self.bad = "%s%r leaves %r where the Unix streams leave %r" % (op[0], op[1:], y, x)
        return b

    def finish(self):
        for s in (self.u, self.w):
            if s is not None:
                try:
                    s.close()
                except Exception as e:
                    e.__traceback__ = None
                    if s is self.w:
                        self.bad = self.bad or "closing raises %r" % e
        self.u = self.w = s = None
        if not self.bad:
            self.bad = leftovers(self.k)
        if not self.bad and "f" in self.k.names:
            x, y = self.contents()
            if x != y:
                self.bad = "after closing the file holds %r instead of %r" % (y, x)
        return self.bad


def leftovers(k):
    if k.handles or k.fds:
        gc.collect()        # what an exception kept alive doesn't count
    if k.misuse:
        return "; ".join(k.misuse)
    if k.handles:
        return "the handles %s stay open once everything is closed" % list(k.handles)
    if k.fds:
        return "the C descriptors %s stay once everything is closed" % dict(k.fds)
    for n, f in k.names.items():
        if f.locks:
            return "locks stay"
    return None


def report(ctx, what, seq, bad, **data):
    ctx.violation("%s %s" % (what, " ".join(map(str, seq))), "%s, %s: %s" % (what, " ".join("%s%r" % (o[0], tuple(o[1:])) for o in seq), bad), dict(data, seq=[core_json(o) for o in seq]))


def core_json(op):
    return [{"b": x.decode("latin-1")} if isinstance(x, bytes) else x for x in op]


def from_json(op):
    return tuple(x["b"].encode("latin-1") if isinstance(x, dict) else x for x in op)


# -- histories ---------------------------------------------------------------------------------------------------------

def plans(quick):
    d = 3 if quick else 4
    out = []
    for mode in MODES:
        exists = "C" not in mode
        out.append((mode, 0, None, RAW, d, exists))
        out.append((mode, 0, None, MORE, d - 1, exists))
        out.append((mode, 4, None, BUF, d - (quick and mode in ("RB", "WB", "WESB", "WNB", "RWCB")), exists))
        if not quick or mode in ("RWB", "RAB", "RNB", "AB"):
            out.append((mode, 0, 2, RAW[:1] + RAW[3:4] + RAW[6:7] + RAW[8:9] + RAW[12:16], d, exists))
            out.append((mode, -1, None, BUF, d - 1, exists))
            out.append((mode, 5, 1, [o for o in BUF if o[0] != "read1"], d - 1, exists))
    for mode in ("RWB", "RAB", "RNB"):
        out.append((mode, 0, None, HUGE, d - 1 if quick else 3, True))
    return out


def history(ctx, h, plan, seq):
    mode, buffering, max_io, _, _, exists = plan
    r = Run(ctx, h, mode, buffering, CONTENT if exists else None, max_io)
    first = seq
    results = []
    try:
        if not r.bad and r.w is not None:
            for i, op in enumerate(seq):
                # with partial transfers, unbuffered calls legitimately differ
                if max_io and buffering == 0:
                    b = partial(r, op)
                else:
                    b = r.step(op, buffering == 0)
                results.append(b[0] if b[0] == "ok" else b)
                if r.bad:
                    first = seq[:i + 1]
                    break
    finally:
        bad = r.finish()
    ctx.stats.add("executions")
    ctx.stats.add("transitions", len(seq) + 2)
    if "ok" in results:
        ctx.stats.add("nontrivial")
    if bad:
        report(ctx, r.label, first, bad, kind="history", binding=h.binding, plan=[mode, buffering, max_io, exists])
    f = r.k.names.get("f")
    return (tuple(map(str, results)), f and (f.size, f.get(0, 40)))


def partial(r, op):
    """Partial transfers of the native calls: repeats them, so that the whole is comparable."""
    if op[0] == "write" and op[1] and not r.w.closed and r.w.writable():
        n = r.w.write(op[1])
        if not 0 < n <= r.k.max_io:
            r.bad = "write() returns %r" % n
            return ("ok", n)
        m = r.u.write(op[1][:n])
        return ("ok", n)
    if op[0] == "read" and not r.w.closed and r.w.readable():
        v = r.w.read(op[1])
        x = r.u.read(len(v))
        if v != x or op[1] > 0 and len(v) > op[1]:
            r.bad = "read%r gives %r instead of %r" % (op[1:], v, x)
        return ("ok", v)
    return r.step(op, True)


def job_histories(ctx, x):
    binding, i, first = x
    h = get(ctx, binding)
    plan = plans(ctx.quick)[i]
    seen = set()
    for rest in itertools.product(plan[3], repeat=plan[4] - 1):
        seen.add(history(ctx, h, plan, (first,) + rest))
    ctx.stats.add("states", len(seen))
    for s in list(seen)[:40]:
        ctx.outcome((plan[0], s))


# -- openings ----------------------------------------------------------------------------------------------------------

def open_cases(quick):
    modes = ["".join(c) + "B" for n in range(1, 5) for c in itertools.combinations("RWANCESI", n)] + ["r", "w", "a", "x", "r+", "w+", "a+", "x+", "rb", "w+b", "ab", "xb", "RW", "A"]
    for mode in modes:
        for state in ("file", "missing", "dir", "readonly", "lost"):
            for perm in (0o777, 0o444):
                for name in ("str", "bytes", "accents"):
                    if perm == 0o444 and state != "missing" or name != "str" and state not in ("file", "missing"):
                        continue
                    yield mode, state, perm, name


def one_opening(ctx, h, mode, state, perm, name):
    k = win32.use(win32.Kernel())
    u = h.path
    for p in (u,):
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
    wname = "f" if state != "lost" else "/missing/f"
    if name == "accents":
        u, wname = u + "\xe9\u4e2d", "f\xe9\u4e2d"
        if os.path.exists(u):
            os.unlink(u)
    upath = u if state != "lost" else os.path.join(h.dir, "missing", "f")
    if state == "dir":
        os.mkdir(u)
        k.make(wname, kind="dir")
    elif state in ("file", "readonly"):
        fd = os.open(u, os.O_WRONLY | os.O_CREAT, 0o644)
        os.write(fd, CONTENT)
        os.close(fd)
        k.make(wname, CONTENT, readonly=state == "readonly")
    other = None
    if state == "file":
        other = h.win.rsopen(wname, "RWNB", buffering=0, locking=False)
    kw = dict(buffering=0 if "b" in mode.lower() else -1, locking=False, permissions=perm)
    res = []
    for where, n in ((h.unix, upath), (h.win, wname)):
        try:
            s = where.rsopen(n.encode() if name == "bytes" or name == "accents" and "R" in mode.upper() else n, mode, **kw)
            pos = s.tell()
            v = ("ok", s.readable(), s.writable(), pos)
        except Exception as e:
            s, v = None, ("raises", kind(e))
            e.__traceback__ = None
        res.append((v, s))
    (a, us), (b, ws) = res
    s = None
    bad = None
    relaxed = state in ("dir", "readonly")
    if a != b and not (relaxed and (b[0] == "raises" and isinstance(b[1], tuple)) and (a[0] == "ok" or isinstance(a[1], tuple))):
        bad = "gives %s where Unix gives %s" % (b, a)
    if not bad and state == "readonly" and b[0] == "ok" and b[2]:
        bad = "a read-only file was opened for writing"
    if ws is not None and not bad:
        o = k.handles[max(k.handles)]
        upper = mode if mode.upper() == mode else {"r": "RN", "w": "WE", "a": "A", "x": "WC"}[mode[0]] + ("RW" if "+" in mode else "")
        want_access = (0x80000000 if "R" in upper else 0) | (0x40000000 if set("WA") & set(upper) else 0)
        if o.access != want_access:
            bad = "requests the access %x instead of %x" % (o.access, want_access)
        elif o.inherit != ("I" in upper):
            bad = "the handle %s inheritable" % ("is" if o.inherit else "isn't")
        elif o.through != ("S" in upper):
            bad = "the stream %s write-through" % ("is" if o.through else "isn't")
        elif wname not in k.names:
            bad = "the file isn't there: %s" % list(k.names)
        elif state == "missing" and k.names[wname].readonly != (perm == 0o444):
            bad = "the new file %s read-only" % ("is" if k.names[wname].readonly else "isn't")
        try:        # files must stay shareable
            k.handles_before = dict(k.handles)
            h.win.rsopen(wname, "RNB", buffering=0, locking=False).close()
        except Exception as e:
            bad = bad or "prevents other openings: %r" % e
    if not bad and (a[0] == "ok") == (b[0] == "ok"):
        x = os.path.exists(upath)
        if x != (wname in k.names):
            bad = "the file %s" % ("wasn't created" if x else "was created")
        elif x and state != "dir":
            fd = os.open(upath, os.O_RDONLY)
            data = os.pread(fd, 100, 0)
            os.close(fd)
            if data != k.names[wname].content():
                bad = "leaves %r instead of %r" % (k.names[wname].content(), data)
    elif not bad and state == "readonly" and k.names[wname].content() != CONTENT:
        bad = "the read-only file was modified"
    for s in (us, ws, other):
        if s is not None:
            s.close()
    s = us = ws = other = res = None
    bad = bad or leftovers(k)
    ctx.stats.add("executions")
    ctx.stats.add("transitions", 3)
    ctx.stats.add("states")
    ctx.outcome(("open", mode, state, b))
    if bad:
        report(ctx, "%s opening mode %s of %s, permissions %o, %s name" % (h.binding, mode, state, perm, name), [], bad, kind="open", binding=h.binding, case=[mode, state, perm, name])


def job_open(ctx, x):
    binding, part = x
    h = get(ctx, binding)
    for i, case in enumerate(open_cases(ctx.quick)):
        if i % 8 == part:
            one_opening(ctx, h, *case)


# -- locks -------------------------------------------------------------------------------------------------------------

def lock_ops(quick):
    out = []
    ranges = RANGES if not quick else RANGES[:8]
    for who in (0, 1):
        for i, r in enumerate(ranges):
            for shared in ((None,) if i > 3 else (False, True)):
                out.append(("lock", who, r[0], r[1], shared))
            out.append(("unlock", who, r[0], r[1]))
        out.append(("close", who))
        out.append(("peeked", who))
    out.append(("foreign", 2, 3))
    return out


def norm(length, offset):
    return (offset, INF if not length else offset + length)


def lock_history(ctx, h, seq, buffering=0):
    k = win32.use(win32.Kernel())
    k.make("f", CONTENT)
    streams = [h.win.rsopen("f", "RWB", buffering=buffering, locking=False, thread_safe=False) for _ in range(2)]
    raws = [getattr(s, "raw", s) for s in streams]
    handles = [r.handle() for r in raws]
    opens = [k.handles[x] for x in handles]
    f = k.names["f"]
    model = []          # (who, start, end, exclusive)
    bad = None
    done = []
    for op in seq:
        done.append(op)
        who = op[1]
        if op[0] == "foreign":
            k.foreign = [(f, op[1], op[2], True)]
            continue
        s = streams[who]
        if op[0] == "close":
            s.close()
            model = [m for m in model if m[0] != who]
        elif s.closed:
            continue
        elif op[0] == "peeked":
            # the stream sees where it stands whatever it locked
            if s.tell() != 0 or s.size() != len(CONTENT):
                bad = "tell(), size() give %r, %r" % (s.tell(), s.size())
        elif op[0] == "lock":
            length, offset, shared = op[2:]
            a, b = norm(length, offset)
            exclusive = not shared
            own = any(m[0] == who and a < m[2] and m[1] < b for m in model)
            conflict = any(m[0] != who and a < m[2] and m[1] < b and (exclusive or m[3]) for m in model)
            foreign = any(a < x[1] + x[2] and x[1] < b for x in k.foreign)
            before = len(k.calls)
            try:
                s.lock_file(timeout=0, length=length, offset=offset, shared=shared)
                got = "ok"
            except Exception as e:
                got = kind(e)
                e.__traceback__ = None
            want = ("RuntimeError",) if own else ("locking",) if conflict or foreign else ("ok",)
            if own and conflict:
                want = ("RuntimeError", "locking")
            if got not in want:
                bad = "gives %s instead of %s" % (got, want)
            if got == "ok":
                model.append((who, a, b, exclusive))
        else:
            a, b = norm(*op[2:])
            mine = [m for m in model if m[:3] == (who, a, b)]
            try:
                s.unlock_file(length=op[2], offset=op[3])
                got = "ok"
            except Exception as e:
                got = kind(e)
                e.__traceback__ = None
            want = "ok" if mine else "RuntimeError"
            if got != want:
                bad = "gives %s instead of %s" % (got, want)
            if mine:
                model.remove(mine[0])
        if not bad:
            table = sorted((opens.index(l[0]), l[1], min(INF, l[1] + l[2]) if l[1] + l[2] < 1 << 63 else INF, l[3]) for l in f.locks)
            if table != sorted(model):
                bad = "the native locks are %s instead of %s" % (table, sorted(model))
        if bad:
            break
    locks = len(model)
    for s in streams:
        try:
            s.close()
        except Exception as e:
            bad = bad or "closing raises %r" % e
    s = None
    streams = raws = None
    bad = bad or leftovers(k)
    ctx.stats.add("executions")
    ctx.stats.add("transitions", len(seq) + 2)
    if locks:
        ctx.stats.add("nontrivial")
    if bad:
        report(ctx, "%s two streams" % h.binding, done, bad, kind="locks", binding=h.binding)
    return tuple(sorted(model))


def job_locks(ctx, x):
    binding, first = x
    h = get(ctx, binding)
    seen = set()
    for rest in itertools.product(lock_ops(ctx.quick), repeat=2 if ctx.quick else 3):
        seen.add(lock_history(ctx, h, (first,) + rest))
    ctx.stats.add("states", len(seen))
    for s in list(seen)[:40]:
        ctx.outcome(s)


# -- faults ------------------------------------------------------------------------------------------------------------

SCRIPTS = [
    ("RNB", 0, [W("read", 3), W("seek", 1), W("tell"), W("size"), W("unique_id"), W("times"), W("fileno"), W("readall")]),
    ("RWB", 0, [W("write", b"xyz"), W("truncate", 2), W("truncate", 15), W("truncate", 20, False), W("sync"), W("seek", 25), W("write", b"ab")]),
    ("RWEB", 0, [W("write", b"xyz"), W("lock", 0, 3, 1), W("unlock", 3, 1)]),
    ("RAB", 0, [W("write", b"xyz"), W("truncate", 2), W("write", b"q"), W("readall")]),
    ("RWB", 4, [W("read", 3), W("write", b"xyz"), W("seek", 1), W("write", b"0123456789"), W("truncate", 5), W("flush"), W("lock", 0, None, 0), W("write", b"l"), W("unlock", None, 0)]),
    ("WB", 4, [W("write", b"xyz"), W("write", b"0123456789"), W("sync")]),
    ("RWCB", -1, [W("write", b"xyz"), W("lock", 5, None, 0), W("read", 2), W("unlock", None, 0)]),
]
CODES = [5, 6, 32, 33, 87, 109, 112, 232, 1450, 4]


def faulty(ctx, h, script, index, code, locking):
    mode, buffering, ops = script
    k = win32.use(win32.Kernel())
    if "C" not in mode:
        k.make("f", CONTENT)
    k.fault = (index, code)
    bad, raised, where = None, None, None
    s = None
    hit = lambda: len(k.calls) > index
    name = lambda: k.calls[index] if hit() else None

    def judge(what, e):
        nonlocal bad
        n = name()
        if e is None:
            return
        kd = kind(e)
        if not hit():
            bad = "%s raises %r though nothing failed" % (what, e)
        elif kd == "locking" and n == "LockFileEx":
            pass
        elif kd == "unsupported" or isinstance(e, BlockingIOError):
            pass
        elif not isinstance(kd, tuple):
            bad = "%s raises %r instead of an OSError" % (what, e)
        elif first[0] and e.errno != win32.errno_of(code) and not (n == "open_osfhandle" and e.errno in (E.EBADF, E.EMFILE)):
            bad = "%s raises %r instead of errno %d, when %s fails with %d" % (what, e, win32.errno_of(code), n, code)
        first[0] = False

    first = [True]
    try:
        s = h.win.rsopen("f", mode, buffering=buffering, locking=locking, timeout=0 if locking else None, thread_safe=False)
    except Exception as e:
        judge("opening", e)
        e.__traceback__ = None
        raised = True
        gc.collect()
    if s is not None:
        silent = ("open_osfhandle",)
        if hit() and name() not in silent and not raised and not bad:
            bad = "%s failed with %d while opening, and nothing was raised" % (name(), code)
        for op in ops:
            if bad:
                break
            was = hit()
            pos = file_pos(s, k)
            try:
                args = dict(zip(("timeout", "length", "offset"), op[1:])) if op[0] == "lock" else None
                if op[0] == "lock":
                    if locking:
                        continue
                    s.lock_file(**args)
                elif op[0] == "unlock":
                    if locking:
                        continue
                    s.unlock_file(length=op[1], offset=op[2])
                elif op[0] == "truncate" and len(op) > 2:
                    s.truncate(op[1], zero_fill=op[2])
                else:
                    getattr(s, op[0])(*op[1:])
                if not was and hit() and name() == "LockFileEx" and op[0] == "lock" and op[1] == 5 and win32.errno_of(code) not in (E.EINVAL, E.EBADF):
                    pass        # tried again, until it worked
                elif not was and hit() and not excused(name(), code, op):
                    bad = "%s failed with %d in %s() and nothing was raised" % (name(), code, op[0])
            except RuntimeError as e:
                if not (op[0] == "unlock" and first[0] is False):
                    bad = "%s raises %r" % (op[0], e)
                e.__traceback__ = None
            except Exception as e:
                judge(op[0], e)
                e.__traceback__ = None
                if not bad and op[0] == "truncate" and name() == "SetEndOfFile" and buffering == 0 and not was:
                    if file_pos(s, k) != pos:
                        bad = "truncate() failed, and moved the stream from %s to %s" % (pos, file_pos(s, k))
                if code == 6 and not was:
                    break
        was = hit()
        try:
            s.close()
            if not was and hit() and name() in ("CloseHandle", "WriteFile", "close") and not bad and name() != "close":
                bad = "%s failed with %d in close() and nothing was raised" % (name(), code)
        except RuntimeError as e:
            bad = bad or "close raises %r" % e
        except Exception as e:
            if not was:
                judge("close", e)
            e.__traceback__ = None
        if not bad and not s.closed:
            bad = "the stream isn't closed"
    s = None
    if not bad:
        if name() in ("CloseHandle",):
            if len(k.handles) > 1:
                bad = "handles stay open"
        else:
            bad = leftovers(k)
    ctx.stats.add("executions")
    ctx.stats.add("transitions", len(ops) + 2)
    ctx.outcome((name(), code, bool(bad)))
    if hit():
        ctx.stats.add("nontrivial")
    if bad:
        report(ctx, "%s mode %s buffering %s %s, call %d (%s) failing with %d" % (h.binding, mode, buffering, "locked" if locking else "", index, name(), code), ops, bad,
               kind="fault", binding=h.binding, script=SCRIPTS.index(script), index=index, code=code, locking=locking)
    return hit()


def excused(name, code, op):
    return name == "open_osfhandle" or name == "ReadFile" and code in (109, 232) or name == "close"


def file_pos(s, k):
    for o in k.handles.values():
        return o.pos


def job_faults(ctx, x):
    binding, i, code, locking = x
    h = get(ctx, binding)
    n = 0
    while faulty(ctx, h, SCRIPTS[i], n, code, locking):
        n += 1
    ctx.stats.add("states", n)


# -- wrapping, identity, pipes --------------------------------------------------------------------------------------------

def wrap_cases():
    for source in ("fileno", "handle", "name", "pyhandle"):
        for closefd in (True, False):
            for mode in ("RNB", "RWB", "AB", "RAB", "rb", "r+b"):
                for buffering in (0, -1):
                    for fd in (2000, 0, 1):
                        for use in ((), ("fileno",), ("write",), ("fileno", "write"), ("times",)):
                            if fd != 2000 and source in ("handle", "pyhandle"):
                                continue
                            yield source, closefd, mode, buffering, fd, use


def wrapping(ctx, h, source, closefd, mode, buffering, fd, use):
    k = win32.use(win32.Kernel(first_fd=fd))
    f = k.make("f", CONTENT)
    handle = k.new_handle(win32.Open(f, 0xC0000000, False, False))
    fileno = None
    if source in ("fileno", "name"):
        fileno = k.open_osfhandle(handle, 0)
    k.next_fd = max(k.next_fd, 2000)
    bad = None
    if source == "name" and mode != mode.lower():
        return
    kw = {"fileno": fileno} if source == "fileno" else {"handle": handle} if source == "handle" else {"name": fileno}
    if source == "pyhandle":
        if h.binding != "pywin32":
            return
        import pywintypes
        py = pywintypes.HANDLE(handle)
        kw = {"handle": py}
    write = mode not in ("RNB", "rb")
    try:
        s = h.win.rsopen(mode=mode, buffering=buffering, closefd=closefd, locking=False, thread_safe=False, **kw)
        if s.handle() != handle:
            bad = "handle() gives %r instead of %r" % (s.handle(), handle)
        for u in use:
            if u == "fileno":
                n = s.fileno()
                if fileno is not None and n != fileno:
                    bad = "fileno() gives %r instead of %r" % (n, fileno)
                elif k.fds.get(n) != handle or s.fileno() != n:
                    bad = "fileno() gives %r, which isn't on this handle" % n
            elif u == "times":
                s.times(), s.unique_id()
            elif write:
                s.write(b"xy")
        s.close()
        if write and "write" in use:
            want = CONTENT + b"xy" if "A" in mode else b"xy" + CONTENT[2:]
            if f.content() != want:
                bad = bad or "leaves %r instead of %r" % (f.content(), want)
        elif f.content() != CONTENT:
            bad = bad or "modifies the file"
        s = None
    except Exception as e:
        bad = "raises %r" % e
        e.__traceback__ = None
    if source == "pyhandle" and closefd:
        py.Detach()
    if not bad:
        if k.misuse:
            bad = "; ".join(k.misuse)
        elif closefd and (k.handles or k.fds):
            bad = "leaves the handles %s and the descriptors %s" % (list(k.handles), dict(k.fds))
        elif not closefd and handle not in k.handles:
            bad = "closes the handle though closefd is false"
        elif not closefd and fileno is not None and k.fds != {fileno: handle}:
            bad = "leaves the descriptors %s" % dict(k.fds)
        elif not closefd and set(k.fds.values()) - {handle} or not closefd and len(k.fds) > 1:
            bad = "leaves the descriptors %s" % dict(k.fds)
        elif len(k.handles) > 1:
            bad = "leaves handles"
    py = None
    k.handles.clear()
    k.fds.clear()
    ctx.stats.add("executions")
    ctx.stats.add("transitions", 3 + len(use))
    ctx.stats.add("nontrivial")
    if bad:
        report(ctx, "%s wrapping a %s (descriptor %s), closefd=%s mode %s buffering=%d" % (h.binding, source, fd, closefd, mode, buffering), [(u,) for u in use], bad,
               kind="wrap", binding=h.binding, case=[source, closefd, mode, buffering, fd, list(use)])


def identities(ctx, h):
    def bad(text, case):
        report(ctx, "%s identity" % h.binding, [], text, kind="identity", binding=h.binding, case=case)

    for index in (1, 5, 0xFFFFFFFF, 1 << 32, (1 << 32) + 7, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0):
        for volume in (1, 0x7FFFFFFF, 0xFEDCBA98, 0):
            k = win32.use(win32.Kernel())
            k.next_index, k.volume = index, volume
            f = k.make("f", CONTENT)
            g = k.make("g", CONTENT)
            g.index = (index + 1) % (1 << 64)
            a, b, c = (h.win.rsopen(n, m, buffering=0, locking=False) for n, m in (("f", "RNB"), ("f", "RAB"), ("g", "RNB")))
            ctx.stats.add("executions")
            ctx.stats.add("transitions", 3)
            try:
                ids = [s.unique_id() for s in (a, b, c)]
                if not (index and volume):
                    bad("gives an identity %r though the system has none" % (ids[0],), [index, volume])
                elif ids[0] != ids[1] or ids[0] == ids[2] or ids[0] != (volume, index):
                    bad("gives %s for the file %d of the volume %d" % (ids, index, volume), [index, volume])
            except OSError:
                if index and volume and g.index:
                    bad("refuses the file %d of the volume %d" % (index, volume), [index, volume])
            for s in (a, b, c):
                s.close()
            if leftovers(k):
                bad(leftovers(k), [index, volume])
    epoch = 116444736000000000
    for at, mt in itertools.product((epoch, epoch + 10 ** 7, 131000000000000000, 132000000012345678, 0x01D5_FFFFFFFF, 0x01D5_00000000 + (1 << 31), 0x01FF_80000001), repeat=2):
        k = win32.use(win32.Kernel())
        f = k.make("f", CONTENT)
        f.atime, f.mtime = at, mt
        for buffering in (0, -1):
            s = h.win.rsopen("f", "RNB", buffering=buffering, locking=False)
            t = s.times()
            s.close()
            ctx.stats.add("executions")
            ctx.stats.add("transitions")
            for what, x, y in (("access", t.access_time, at), ("modification", t.modification_time, mt)):
                if abs(x - (y - epoch) / 1e7) > 2e-6:
                    bad("gives the %s time %r for the file time %d" % (what, x, y), [at, mt])
        if leftovers(k):
            bad(leftovers(k), [at, mt])


def pipes(ctx, h):
    for blocking, broken, content, mode, op in itertools.product((True, False, "full"), (False, True), (b"", b"abcd"), ("RNB", "WNB", "rb", "wb"), ("read", "readall", "readinto", "write", "buffered", "two")):
        k = win32.use(win32.Kernel())
        f = k.make("p", content, kind="pipe")
        f.nonblocking, f.broken = {True: False, False: True, "full": "full"}[blocking], broken
        s = h.win.rsopen("p", mode, buffering=0, locking=False, thread_safe=False)
        writing = mode in ("WNB", "wb")
        bad = None
        try:
            if op in ("read", "two") and not writing:
                got = s.read(10)
                want = content if content else b"" if broken else None
            elif op == "readall" and not writing:
                got = s.read()
                want = content if content else b"" if broken else None
            elif op == "readinto" and not writing:
                b = bytearray(10)
                got = s.readinto(b)
                want = len(content) if content else 0 if broken else None
            elif op in ("write", "two") and writing:
                got = s.write(b"xyz")
                want = None if blocking == "full" else 3
                if not bad and got == 3 and f.content() != content + b"xyz":
                    bad = "write() leaves %r" % f.content()
            else:
                got = want = None
            if got != want or type(got) is not type(want):
                bad = bad or "gives %r instead of %r" % (got, want)
        except OSError as e:
            if not (writing and broken and blocking is True):
                bad = "raises %r" % e
        except Exception as e:
            bad = "raises %r" % e
        s.close()
        s = None
        bad = bad or leftovers(k)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", 2)
        if bad:
            report(ctx, "%s pipe blocking=%s broken=%s holding %r mode %s" % (h.binding, blocking, broken, content, mode), [(op,)], bad, kind="pipe", binding=h.binding, case=[])


def waits(ctx, h):
    """blocking locks really block; spinning ones are tried again"""
    for timeout, code, times, length, shared in itertools.product((None, 5), (33, 32, 167, 158), (0, 1, 3), (None, 4), (False, True)):
        k = win32.use(win32.Kernel())
        f = k.make("f", CONTENT)
        s = h.win.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
        k.failing = ("LockFileEx", code, times)
        bad = None
        if timeout is None:
            k.foreign = [(f, 2, 5, True)]
        try:
            with s.lock_file(timeout=timeout, length=length, offset=1, shared=shared):
                if len(f.locks) != 1 or f.locks[0][1] != 1 or f.locks[0][3] == shared:
                    bad = "locks %s" % [l[1:] for l in f.locks]
                if timeout is None and k.blocked != 1:
                    bad = "the blocking request didn't block"
                if timeout is not None and k.blocked:
                    bad = "the request with a timeout blocked"
            if f.locks:
                bad = bad or "leaves locks"
        except Exception as e:
            bad = "raises %r" % e
            e.__traceback__ = None
        s.close()
        s = None
        bad = bad or leftovers(k)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", 3)
        if bad:
            report(ctx, "%s waiting timeout=%s, %d failures %d, length %s shared %s" % (h.binding, timeout, times, code, length, shared), [], bad, kind="wait", binding=h.binding, case=[])


def job_others(ctx, x):
    binding, part = x
    h = get(ctx, binding)
    if part == "wrap":
        for case in wrap_cases():
            wrapping(ctx, h, *case)
    else:
        {"identities": identities, "pipes": pipes, "waits": waits}[part](ctx, h)


# ----------------------------------------------------------------------------------------------------------------------

def prepare(ctx):
    pass


def bounds(ctx):
    return {"history_plans": len(plans(ctx.quick)), "depths": sorted({p[4] for p in plans(ctx.quick)}), "lock_depth": 3 if ctx.quick else 4, "lock_alphabet": len(lock_ops(ctx.quick)),
            "opening_cases": sum(1 for _ in open_cases(ctx.quick)), "fault_scripts": len(SCRIPTS), "codes": CODES, "bindings": list(BINDINGS)}


def dispatch(ctx, x):
    {"h": job_histories, "o": job_open, "l": job_locks, "f": job_faults, "x": job_others}[x[0]](ctx, x[1:])


def run(ctx):
    for b in BINDINGS:
        jobs = [("h", b, i, op) for i, p in enumerate(plans(ctx.quick)) for op in p[3]]
        jobs += [("l", b, op) for op in lock_ops(ctx.quick)]
        jobs += [("o", b, i) for i in range(8)]
        jobs += [("f", b, i, code, locking) for i in range(len(SCRIPTS)) for code in CODES for locking in (False, True)]
        jobs += [("x", b, part) for part in ("wrap", "identities", "pipes", "waits")]
        ctx.parallel(jobs, dispatch)
    ctx.sample({"binding": "ctypes", "mode": "RA", "calls": "seek(13) write(b'xyz') truncate(2)"})


def replay(ctx, data):
    h = get(ctx, data["binding"])
    seq = tuple(map(from_json, data.get("seq", [])))
    kd = data["kind"]
    if kd == "history":
        mode, buffering, max_io, exists = data["plan"]
        history(ctx, h, (mode, buffering, max_io, None, None, exists), seq)
    elif kd == "open":
        one_opening(ctx, h, *data["case"])
    elif kd == "locks":
        lock_history(ctx, h, seq)
    elif kd == "fault":
        faulty(ctx, h, SCRIPTS[data["script"]], data["index"], data["code"], data["locking"])
    elif kd == "wrap":
        wrapping(ctx, h, *data["case"])
    else:
        {"identity": identities, "pipe": pipes, "wait": waits}[kd](ctx, h)
