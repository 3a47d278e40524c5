"""Sequential lock / descriptor histories on real files, in lockstep with a per-handle lock table.

Used by P01 (outcomes), P02 (kernel-visible locks) and P16 (descriptor set).

A *world* is a list of stream specifications; an operation is a tuple whose first element names it:
  ("lock", s, start, length, shared)       non-blocking request (timeout=0), SEEK_SET
  ("lockw", s, start, length, shared, whence)   same absolute range, expressed relative to SEEK_CUR / SEEK_END
  ("unlock", s, start, length)
  ("enter", s, start, length, shared) / ("exit", s) / ("exitexc", s)     a with-block
  ("close", s) / ("drop", s) / ("open", s)
  ("flock", start, length, shared) / ("funlock", start, length)       foreign owner
  ("bad", s, i)      a request with invalid arguments
"""
import gc
import os

from . import core
from .klock import Foreign

SIZE = 12
RELEASES = None


def spec(path="A", mode="RWB", kind="path", of=None, layer="raw", closefd=True):
    return dict(path=path, mode=mode, kind=kind, of=of, layer=layer, closefd=closefd)


class _Boom(Exception):
    pass


BAD_CALLS = [
    (dict(timeout=-1), ValueError), (dict(timeout="x"), ValueError), (dict(timeout=0, length=-1), ValueError),
    (dict(timeout=0, length=1.5), ValueError), (dict(timeout=0, length=1, offset="0"), ValueError),
    (dict(timeout=0, length=1, offset=1.0), ValueError), (dict(timeout=0, whence=3), ValueError),
    (dict(timeout=0, shared=2), ValueError), (dict(timeout=0, length=1, offset=-1), (ValueError, OSError)),
    (dict(timeout=0, length=1, offset=-100, whence=2), (ValueError, OSError)),
    (dict(timeout=0, length=2 ** 62, offset=2 ** 62 + 2 ** 61), (ValueError, OSError, OverflowError)),
    (dict(timeout=0, length=1, offset=2 ** 70), (ValueError, OSError, OverflowError)),
]
BAD_UNLOCKS = [(dict(length=-1), ValueError), (dict(length="a"), ValueError), (dict(length=1, offset=1.5), ValueError),
               (dict(length=1, offset=0, whence=9), ValueError)]


class World:
    def __init__(self, ctx, rsfile, specs, dirpath, listfds=False):
        self.ctx, self.rsfile, self.specs, self.dir = ctx, rsfile, specs, dirpath
        self.names = {"A": os.path.join(dirpath, "a"), "B": os.path.join(dirpath, "b"),
                      "A2": os.path.join(dirpath, "a2"), "AS": os.path.join(dirpath, "as")}
        self.listfds = listfds

    # -- set-up / tear-down of one history ------------------------------------------------------------------------
    def begin(self):
        for n in ("A", "B"):
            with open_raw(self.names[n], os.O_CREAT | os.O_RDWR | os.O_TRUNC) as fd:
                os.write(fd, b"x" * SIZE)
        os.link(self.names["A"], self.names["A2"])
        os.symlink(self.names["A"], self.names["AS"])
        self.foreign = {"A": Foreign(self.names["A"]), "B": Foreign(self.names["B"])}
        self.flocks = []               # foreign locks on A: (start, end, shared)
        self.table = {"A": [], "B": []}     # file -> list of (handle number, start, end, shared)
        self.pending = {"A": set(), "B": set()}   # descriptors of closed streams that must still be open
        self.streams = [None] * len(self.specs)
        self.withs = [[] for _ in self.specs]
        self.fds = [None] * len(self.specs)
        self.external = set()          # descriptors the harness opened for wrapping
        self.refs = {}                 # fd -> streams that will close it
        self.base = set(fdset()) if self.listfds else None
        for i in range(len(self.specs)):
            self.do_open(i)

    def file_of(self, i):
        return "B" if self.specs[i]["path"] == "B" else "A"

    def do_open(self, i):
        s = self.specs[i]
        path = self.names[s["path"]]
        kw = dict(locking=False)
        if s["layer"] == "raw":
            kw.update(buffering=0, thread_safe=False)
            mode = s["mode"]
        elif s["layer"] == "buf":
            kw.update(thread_safe=False)
            mode = s["mode"]
        elif s["layer"] == "safe":
            mode = s["mode"]
        else:
            mode = s["mode"].replace("B", "")
        if s["kind"] == "path":
            st = self.rsfile.rsopen(path, mode, **kw)
        else:
            if s["kind"] == "dup":         # a duplicate of the descriptor of another stream, owned by this stream
                fd = os.dup(self.streams[s["of"]].fileno())
            else:                          # "same": wraps the very descriptor of another stream
                fd = self.streams[s["of"]].fileno()
            if not s["closefd"] and s["kind"] == "dup":
                self.external.add(fd)
            st = self.rsfile.rsopen(None, mode, fileno=fd, closefd=s["closefd"], **kw)
        self.streams[i] = st
        self.fds[i] = st.fileno()
        self.withs[i] = []

    def end(self):
        for i, st in enumerate(self.streams):
            if st is not None:
                try:
                    st.close()
                except Exception:
                    pass
        self.streams = []
        self.withs = []
        for f in self.foreign.values():
            f.close()
        for fd in list(self.external):
            try:
                os.close(fd)
            except OSError:
                pass
        for n in self.names.values():
            try:
                os.unlink(n)
            except OSError:
                pass

    # -- model -----------------------------------------------------------------------------------------------------
    @staticmethod
    def overlap(a, b, c, d):
        return (d is None or a < d) and (b is None or c < b)

    def predict_lock(self, i, start, end, shared):
        s = self.specs[i]
        readable, writable = "R" in s["mode"], ("W" in s["mode"] or "A" in s["mode"])
        if (shared and not readable) or (not shared and not writable):
            return "denied"
        fd = self.fds[i]
        for (h, a, b, sh) in self.table[self.file_of(i)]:
            if h == fd and self.overlap(a, b, start, end):
                return "self"
        for (h, a, b, sh) in self.table[self.file_of(i)]:
            if h != fd and self.overlap(a, b, start, end) and not (sh and shared):
                return "conflict"
        if self.file_of(i) == "A":
            for (a, b, sh) in self.flocks:
                if self.overlap(a, b, start, end) and not (sh and shared):
                    return "conflict"
        return "ok"

    def release(self, i, only=None):
        """removes the locks of the handle of stream i (all, or one exact range); True if something was removed"""
        t = self.table[self.file_of(i)]
        new = [r for r in t if not (r[0] == self.fds[i] and (only is None or (r[1], r[2]) == only))]
        removed = len(new) != len(t)
        self.table[self.file_of(i)] = new
        return removed

    def settle(self, f):
        if not self.table[f]:
            self.pending[f] = set()

    def key(self):
        return (tuple(st is not None for st in self.streams),
                tuple(tuple(sorted((self.fds.index(r[0]) if r[0] in self.fds else -1, r[1], -1 if r[2] is None else r[2], r[3])
                                   for r in self.table[f])) for f in "AB"),
                tuple(sorted((a, -1 if b is None else b, s) for a, b, s in self.flocks)),
                tuple(len(w) for w in self.withs), tuple(len(self.pending[f]) for f in "AB"))

    # -- execution of one operation; returns (expected, observed) ---------------------------------------------------
    def step(self, op):
        name = op[0]
        if name == "flock":
            _, start, length, shared = op
            end = start + length if length else None
            expected = "ok"
            for (h, a, b, sh) in self.table["A"]:
                if self.overlap(a, b, start, end) and not (sh and shared):
                    expected = "conflict"
            got = "ok" if self.foreign["A"].lock(start, end, shared) else "conflict"
            if got == "ok":
                self.flocks = cut(self.flocks, start, end) + [(start, end, shared)]
            return expected, got
        if name == "funlock":
            _, start, length = op
            end = start + length if length else None
            self.foreign["A"].unlock(start, end)
            self.flocks = cut(self.flocks, start, end)
            return "ok", "ok"
        i = op[1]
        st = self.streams[i]
        f = self.file_of(i)
        if name in ("lock", "lockw", "enter", "lockdef"):
            start, length, shared = op[2], op[3], op[4]
            end = start + length if length else None
            if name == "lockdef":           # shared left to default
                w = "W" in self.specs[i]["mode"] or "A" in self.specs[i]["mode"]
                shared = not w
                kw = {}
            else:
                kw = {"shared": shared}
            expected = self.predict_lock(i, start, end, shared)
            off, whence = start, os.SEEK_SET
            if name == "lockw":
                whence = op[5]
                if whence == os.SEEK_CUR:
                    st.seek(5)
                    off = start - 5
                else:
                    off = start - SIZE
            got, cm = self.call(st.lock_file, timeout=0, length=length, offset=off, whence=whence, **kw)
            if got == "ok":
                self.table[f].append((self.fds[i], start, end, shared))
                if name == "enter":
                    cm.__enter__()
                    self.withs[i].append((cm, start, end))
            return expected, got
        if name == "unlock":
            start, length = op[2], op[3]
            end = start + length if length else None
            expected = "ok" if any(r[0] == self.fds[i] and (r[1], r[2]) == (start, end) for r in self.table[f]) else "self"
            got, _ = self.call(st.unlock_file, length=length, offset=start)
            if got == "ok":
                self.release(i, (start, end))
                self.settle(f)
            return expected, got
        if name in ("exit", "exitexc"):
            cm, start, end = self.withs[i].pop()
            held = any(r[0] == self.fds[i] and (r[1], r[2]) == (start, end) for r in self.table[f])
            expected = "ok" if held else "self"
            if name == "exit":
                got, _ = self.call(cm.__exit__, None, None, None)
            else:
                got = None
                boom = _Boom()
                try:
                    swallowed = cm.__exit__(_Boom, boom, None)
                    got = "swallowed" if swallowed else "ok"
                except BaseException as e:
                    got = "ok" if e is boom else classify(e)
                del boom
            if held:        # the model releases in any case: a with-block that ends never keeps its lock
                self.release(i, (start, end))
                self.settle(f)
            return expected, got
        if name in ("close", "drop"):
            self.withs[i] = []
            st = None
            self.release(i)
            self.settle(f)
            s = self.specs[i]
            if name == "close":
                got, _ = self.call(self.streams[i].close)
                if got == "ok":
                    got, _ = self.call(self.streams[i].close)     # closing twice is harmless
                self.streams[i] = None
            else:
                self.streams[i] = None
                gc.collect() if s["layer"] != "raw" else None
                got = "ok"
            if s["closefd"]:
                if self.table[f]:
                    self.pending[f].add(self.fds[i])
            self.fds[i] = -1 - i
            return "ok", got
        if name == "open":
            try:
                self.do_open(i)
                return "ok", "ok"
            except Exception as e:
                return "ok", classify(e)
        if name == "bad":
            kw, exc = BAD_CALLS[op[2]]
            try:
                st.lock_file(**kw)
                return "refused", "ok"
            except exc:
                return "refused", "refused"
            except Exception as e:
                return "refused", "%s" % type(e).__name__
        if name == "badu":
            kw, exc = BAD_UNLOCKS[op[2]]
            try:
                st.unlock_file(**kw)
                return "refused", "ok"
            except exc:
                return "refused", "refused"
            except Exception as e:
                return "refused", "%s" % type(e).__name__
        raise core.HarnessError(op)

    def call(self, fn, *a, **kw):
        try:
            return "ok", fn(*a, **kw)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return classify(e), None

    def enabled(self, op):
        name = op[0]
        if name in ("flock", "funlock"):
            return True
        i = op[1]
        if name == "open":
            s = self.specs[i]
            return self.streams[i] is None and (s["kind"] == "path" or self.streams[s["of"]] is not None)
        if self.streams[i] is None:
            return False
        if name in ("exit", "exitexc"):
            return bool(self.withs[i])
        if name in ("close", "drop"):
            # a stream whose descriptor is wrapped without ownership by another one is closed last
            return not any(s["kind"] == "same" and s["of"] == i and self.streams[j] is not None
                           for j, s in enumerate(self.specs))
        return True

    # -- observations ------------------------------------------------------------------------------------------------
    def kernel_mismatch(self, points):
        for f in ("A", "B"):
            t = self.table[f]
            fo = self.foreign[f]
            for x in points:
                exp = ""
                for (h, a, b, sh) in t:
                    if a <= x and (b is None or x < b):
                        exp = "W" if not sh else (exp or "R")
                got = fo.seen(x, x + 1)
                if got != exp:
                    return "file %s byte %d: other processes see %r, locks held by open streams say %r" % (f, x, got, exp)
        return None

    def fd_mismatch(self):
        now = set(fdset())
        exp = set(self.base)
        for i, st in enumerate(self.streams):
            if st is not None:
                exp.add(self.fds[i])
        exp |= self.pending["A"] | self.pending["B"]
        exp |= self.external
        if now != exp:
            return "leaked/late: %s  closed early: %s" % (sorted(now - exp), sorted(exp - now))
        return None


def classify(e):
    import rsfile
    if isinstance(e, rsfile.LockingException):
        return "conflict"
    if isinstance(e, RuntimeError):
        return "self"
    if isinstance(e, OSError):
        return "denied"
    if isinstance(e, ValueError):
        return "ValueError"
    return type(e).__name__


def cut(locks, start, end):
    """removes [start, end) from a list of ranges of one owner (record locks of one owner split and merge)"""
    res = []
    for (a, b, sh) in locks:
        if not World.overlap(a, b, start, end):
            res.append((a, b, sh))
            continue
        if a < start:
            res.append((a, start, sh))
        if end is not None and (b is None or end < b):
            res.append((end, b, sh))
    return res


def fdset():
    """the open descriptors of this process (the listing itself uses the lowest free number)"""
    d = os.open("/dev/null", os.O_RDONLY)
    os.close(d)
    return [int(x) for x in os.listdir("/proc/self/fd") if int(x) != d]


class open_raw:
    def __init__(self, path, flags):
        self.fd = os.open(path, flags, 0o666)

    def __enter__(self):
        return self.fd

    def __exit__(self, *a):
        os.close(self.fd)


def probe_points(alphabet):
    pts = {0}
    for op in alphabet:
        if op[0] in ("lock", "lockw", "enter", "lockdef", "unlock"):
            start, length = op[2], op[3]
        elif op[0] in ("flock", "funlock"):
            start, length = op[1], op[2]
        else:
            continue
        pts |= {start, max(0, start - 1)}
        if length:
            pts |= {start + length - 1, start + length}
        else:
            pts |= {start + 1, 2 ** 62 + 7}
    pts = {p for p in pts if 0 <= p < 2 ** 63 - 2}
    # one representative per elementary interval is enough
    bounds = sorted(pts)
    return bounds


def explore(ctx, rsfile, name, specs, alphabet, depth, oracles, first=None, prune=None, check_all=False):
    """All histories of exactly up to `depth` operations. `first` restricts the first operation (job splitting)."""
    base = os.path.join(ctx.scratch, "lw")
    os.makedirs(base, exist_ok=True)
    world = World(ctx, rsfile, specs, base, listfds="fds" in oracles)
    points = probe_points(alphabet)
    states = set()
    stats = ctx.stats

    def run(history, check_from):
        """Executes a history on fresh objects. Returns the list of enabled next operations, or None on violation."""
        world.begin()
        try:
            for n, op in enumerate(history):
                if not world.enabled(op):
                    return None
                exp, got = world.step(op)
                stats.add("transitions")
                if n < check_from:
                    continue
                problem = None
                if "outcome" in oracles and exp != got:
                    problem = ("outcome", "expected %s, got %s" % (exp, got))
                ctx.outcome((op[0], exp, got))
                if problem is None and "kernel" in oracles:
                    k = world.kernel_mismatch(points)
                    if k:
                        problem = ("kernel", k)
                if problem is None and "fds" in oracles:
                    k = world.fd_mismatch()
                    if k:
                        problem = ("descriptors", k)
                if problem:
                    ctx.violation("%s:%s:%s" % (name, problem[0], op[0]),
                                  "after %s in world %s: %s" % (fmt(history[:n + 1]), name, problem[1]),
                                  {"world": name, "history": list(history[:n + 1])})
                    return None
            states.add(world.key())
            return [op for op in alphabet if world.enabled(op)]
        finally:
            world.end()
            if "fds" in oracles:
                now = set(fdset())
                # nothing may be left once every stream is closed
                if not ctx.violations and now - world.base:
                    left = sorted(now - world.base)
                    for fd in left:
                        os.close(fd)
                    ctx.violation("%s:leak" % name, "descriptors %s still open after closing everything following %s" % (
                        left, fmt(history)), {"world": name, "history": list(history)})

    def dfs(history):
        nxt = run(history, 0 if check_all else len(history) - 1)
        stats.add("executions")
        if nxt is None or len(history) >= depth:
            return
        for op in nxt:
            if prune and prune(history, op):
                continue
            dfs(history + [op])

    if first is None:
        dfs([])
    else:
        dfs(list(first))
    stats.add("states", len(states))
    stats.add("nontrivial", len(states))
    return len(states)


def fmt(history):
    return " ; ".join("%s(%s)" % (op[0], ",".join(map(str, op[1:]))) for op in history)
