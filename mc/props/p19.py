"""P19: identity and metadata of open files while the directory entries that led to them are moved, removed, linked, replaced."""
import itertools
import os

from .. import core, envs, idnum
from ..envs import R

LEVEL = "model_checking"
RULE = ("every sequence of exactly `depth` enabled operations: openings by path, symbolic link, hard link, duplicate or opener; renaming, removal, linking, "
        "replacement of entries; writes and truncations by the streams and by others; after each (or after the last only), every getter of every open stream is compared with a model "
        "of entries and files (for times: with the system's own description of the descriptor); a state is a distinct model state")
ASSUMPTIONS = ["a second device is simulated by answering fstat with another device number and an inode number used on the first one"]

LAY = {
    "raw": dict(mode="RWB", buffering=0, thread_safe=False),
    "raw-r": dict(mode="RB", buffering=0, thread_safe=False),
    "buf": dict(mode="RWB", thread_safe=False),
    "buf4": dict(mode="r+b", buffering=4, thread_safe=False),
    "w": dict(mode="WB", thread_safe=False),
    "safe": dict(mode="RWB"),
    "text": dict(mode="RW", thread_safe=False, encoding="ascii"),
    "safetext": dict(mode="RW", encoding="ascii"),
    "app": dict(mode="AB", thread_safe=False),
    "rapp": dict(mode="RA", encoding="ascii"),
}
MODES = {"RWB": "rb+", "RB": "rb", "r+b": "rb+", "WB": "wb", "RW": "RW", "AB": "ab", "RA": "RA"}


class File:
    def __init__(self, size=5):
        self.size = size


class Slot:
    pass


def worlds(quick):
    W = {}
    moves = [("rename", "A", "B"), ("unlink", "A"), ("link", "A", "B"), ("create", "A")]
    obs = [("fwrite", "A"), ("ftrunc", "A"), ("utime", "A")]
    for l1, l2 in (("raw", "safe"), ("buf", "text"), ("raw-r", "buf4")):
        W["moves-%s-%s" % (l1, l2)] = ([("open", 0, "A", l1), ("open", 1, "L", l2), ("open", 1, "B", l1), ("size", 0), ("size", 1), ("close", 0), ("close", 1),
                                        ("race", 0, "A", l1), ("race", 1, "A", l2)] +
                                       moves + obs[:2], 5)
    for l in LAY:
        W["data-" + l] = ([("open", 0, "A", l), ("write", 0, 3), ("write", 0, 6), ("seek", 0, 2), ("size", 0), ("trunc", 0, 2), ("trunc", 0, 20), ("fwrite", "A"),
                           ("ftrunc", "A"), ("utime", "A"), ("rename", "B", "A"), ("create", "B"), ("flush", 0)], 4 if quick else 5)
    W["dup"] = ([("open", 0, "A", "raw"), ("dup", 1, 0, "buf", True), ("dup", 1, 0, "raw", False), ("dup", 2, 1, "safe", True), ("opener", 1, "A"),
                 ("rename", "A", "B"), ("create", "A"), ("close", 0), ("close", 1), ("write", 1, 4), ("size", 2), ("size", 0), ("lock", 0), ("lock", 1)], 5)
    W["swap"] = ([("open", 0, "A", "raw"), ("open", 1, "B", "safe"), ("open", 2, "L", "text"), ("swap",), ("unlink", "A"), ("create", "A"), ("create", "B"), ("retarget",),
                  ("lock", 0), ("close", 0), ("size", 2), ("trunc", 1, 1)], 5 if quick else 6)
    W["device"] = ([("open", 0, "A", "raw"), ("open", 1, "D", "buf"), ("open", 2, "D", "raw"), ("open", 2, "A", "text"), ("lock", 0), ("lock", 1), ("close", 0), ("close", 1),
                    ("close", 2), ("unlink", "A"), ("create", "A"), ("size", 1), ("size", 0), ("write", 1, 3)], 4 if quick else 5)
    return W


class World:
    def __init__(self, ctx):
        self.dir = os.path.join(ctx.scratch, "p19")
        os.makedirs(self.dir, exist_ok=True)
        self.p = lambda n: os.path.join(self.dir, n)
        self.ino_a = self.ino_d = None

    def hook(self, name, real, a, kw):
        r = real(*a, **kw)
        if name in ("fstat", "stat", "lstat") and self.ino_d is not None and r.st_ino == self.ino_d:
            l = list(r)
            l[1], l[2] = self.ino_a, r.st_dev + 1        # another device where this inode number is used too
            return os.stat_result(l, {"st_atime": r.st_atime, "st_mtime": r.st_mtime, "st_ctime": r.st_ctime, "st_blksize": r.st_blksize,
                                      "st_atime_ns": r.st_atime_ns, "st_mtime_ns": r.st_mtime_ns, "st_ctime_ns": r.st_ctime_ns})
        return r

    def make(self, n):
        fd = R.open(self.p(n), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        R.write(fd, b"12345")
        R.close(fd)
        self.names[n] = File()

    def setup(self, device):
        for n in os.listdir(self.dir):
            R.unlink(self.p(n))
        self.names = {}
        self.make("A")
        os.symlink(self.p("A"), self.p("L"))
        self.link = "A"
        self.slots = {}
        self.dups = []
        self.ino_d = None
        if device:
            self.make("D")
            self.ino_a, self.ino_d = R.stat(self.p("A")).st_ino, R.stat(self.p("D")).st_ino

    def enabled(self, op):
        k = op[0]
        N = self.names
        if k in ("open", "opener", "race"):
            return op[1] not in self.slots and (self.link if op[2] == "L" else op[2]) in N
        if k == "dup":
            return op[1] not in self.slots and op[2] in self.slots
        if k == "rename":
            return op[1] in N
        if k == "unlink":
            return op[1] in N
        if k == "link":
            return op[1] in N and op[2] not in N
        if k == "create":
            return op[1] not in N
        if k in ("fwrite", "ftrunc", "utime"):
            return op[1] in N
        if k == "swap":
            return "A" in N and "B" in N
        if k == "retarget":
            return True
        return op[1] in self.slots and (k != "lock" or not self.slots[op[1]].locked)

    def add(self, i, s, f, layer, name, origin, closefd, mode):
        t = Slot()
        t.s, t.f, t.layer, t.name, t.origin, t.closefd, t.mode = s, f, layer, name, origin, closefd, mode
        t.locked = False
        t.fd = s.fileno()
        t.id = None if self.lazy else s.unique_id()
        t.app = "A" in LAY[layer]["mode"]
        t.pos = None
        t.pend = 0
        t.at = f.size if t.app else 0
        self.slots[i] = t

    def apply(self, i, op):
        k = op[0]
        N = self.names
        if k == "race":          # the entry is given to another file as soon as the file is opened
            f = N["A"]

            def hook(name, real, a, kw):
                r = real(*a, **kw)
                if name == "open" and a[0] in (self.p("A"), os.fsencode(self.p("A"))):
                    envs.set_hook(None)
                    self.apply(i, ("rename", "A", "B"))
                    if "A" not in N:
                        self.make("A")
                return r

            envs.set_hook(hook)
            try:
                s = rsfile.rsopen(self.p("A"), locking=False, **LAY[op[3]])
            finally:
                envs.set_hook(None)
            self.add(op[1], s, f, op[3], self.p("A"), "path", True, MODES[LAY[op[3]]["mode"]])
        elif k in ("open", "opener"):
            layer = op[3] if k == "open" else "raw"
            kw = dict(LAY[layer])
            n = self.link if op[2] == "L" else op[2]
            path = self.p(op[2])
            if k == "opener":
                kw["opener"] = lambda p, fl: R.open(p, fl, 0o600)
                s = rsfile.rsopen(path, locking=False, **kw)
                self.add(op[1], s, N[n], layer, None, None, True, MODES[kw["mode"]])
            else:
                s = rsfile.rsopen(path, locking=False, **kw)
                self.add(op[1], s, N[n], layer, path, "path", True, MODES[kw["mode"]])
            if kw["mode"] == "WB":
                pass
        elif k == "dup":
            _, j, of, layer, closefd = op
            o = self.slots[of]
            fd = os.dup(o.fd)
            if not closefd:
                self.dups.append(fd)
            kw = LAY[layer]
            s = rsfile.rsopen(None, fileno=fd, closefd=closefd, locking=False, **kw)
            self.add(j, s, o.f, layer, fd, "fileno", closefd, MODES[kw["mode"]])
            self.slots[j].at = None
            o.at = None
        elif k == "rename":
            os.rename(self.p(op[1]), self.p(op[2]))
            f = N[op[1]]
            if N.get(op[2]) is not f:          # renaming onto a link of the same file does nothing
                N[op[2]] = N.pop(op[1])
        elif k == "unlink":
            R.unlink(self.p(op[1]))
            del N[op[1]]
        elif k == "link":
            os.link(self.p(op[1]), self.p(op[2]))
            N[op[2]] = N[op[1]]
        elif k == "create":
            self.make(op[1])
        elif k == "swap":
            os.rename(self.p("A"), self.p("T"))
            os.rename(self.p("B"), self.p("A"))
            os.rename(self.p("T"), self.p("B"))
            if os.path.exists(self.p("T")):
                R.unlink(self.p("T"))
            N["A"], N["B"] = N["B"], N["A"]
        elif k == "retarget":
            R.unlink(self.p("L"))
            self.link = "B" if self.link == "A" else "A"
            os.symlink(self.p(self.link), self.p("L"))
        elif k in ("fwrite", "ftrunc"):
            if any(t.pend and t.layer == "buf4" for t in self.slots.values()):
                self.blurred = True        # part of the data may have been written already, or not: only the system's answer is compared
            fd = R.open(self.p(op[1]), os.O_WRONLY | (os.O_APPEND if k == "fwrite" else 0))
            if k == "fwrite":
                R.write(fd, b"fff")
                N[op[1]].size += 3
            else:
                R.ftruncate(fd, 1)
                N[op[1]].size = 1
            R.close(fd)
        elif k == "utime":
            os.utime(self.p(op[1]), (1000 + i, 2000.5 + i))
        else:
            t = self.slots[op[1]]
            if k == "close":
                self.flushed(t)
                t.s.close()
                del self.slots[op[1]]
            elif k == "lock":
                self.flushed(t)
                t.s.lock_file(timeout=0, offset=op[1], length=1)
                t.locked = True
            elif k == "seek":
                t.s.seek(op[2])
                self.flushed(t)
                t.at = op[2]
            elif k == "flush":
                t.s.flush()
                self.flushed(t)
            elif k == "write":
                if t.layer == "raw-r":
                    return
                t.s.write("x" * op[2] if "text" in t.layer or t.layer == "rapp" else b"x" * op[2])
                t.pend += op[2]
                if t.layer == "raw":
                    self.flushed(t)
            elif k == "trunc":
                if t.layer == "raw-r":
                    return
                r = t.s.truncate(op[2])
                self.flushed(t)
                t.f.size = op[2]
                if r != op[2]:
                    return "truncate(%d) returned %r" % (op[2], r)
            elif k == "size":
                n = t.s.size()
                real = R.fstat(t.fd).st_size
                if n != real:
                    return "size() returned %r, the file has %d bytes" % (n, real)
                pend = t.pend
                self.flushed(t)
                if t.at is not None and not self.blurred and n != t.f.size:
                    return "size() returned %r, the model says %d" % (n, t.f.size)

    def flushed(self, t):
        """pending data reaches the file"""
        if t.pend:
            if t.app:
                t.f.size += t.pend
            elif t.at is not None:
                t.at += t.pend
                t.f.size = max(t.f.size, t.at)
            else:
                self.blurred = True
            t.pend = 0

    def look(self):
        sl = sorted(self.slots.items())
        for i, t in sl:
            s = t.s
            if s.fileno() != t.fd or s.handle() != t.fd:
                return "stream %d: fileno() %r, handle() %r instead of %r" % (i, s.fileno(), s.handle(), t.fd)
            if t.id is None:
                t.id = s.unique_id()
            if s.unique_id() != t.id:
                return "stream %d: unique_id() changed from %r to %r" % (i, t.id, s.unique_id())
            st = R.fstat(t.fd)
            tm = s.times()
            if (tm.access_time, tm.modification_time) != (st.st_atime, st.st_mtime):
                return "stream %d: times() %r, the system says %r" % (i, tm, (st.st_atime, st.st_mtime))
            if t.origin is not None and (s.name != t.name or s.origin != t.origin):
                return "stream %d: name %r, origin %r instead of %r, %r" % (i, s.name, s.origin, t.name, t.origin)
            if s.closefd is not t.closefd:
                return "stream %d: closefd %r" % (i, s.closefd)
            if s.mode != t.mode:
                return "stream %d: mode %r instead of %r" % (i, s.mode, t.mode)
            for j, u in sl:
                if u.id is not None and (t.id == u.id) != (t.f is u.f):
                    return "streams %d and %d have ids %r, %r though they are opened on %s" % (
                        i, j, t.id, u.id, "the same file" if t.f is u.f else "different files")

    def run(self, h, device, lazy=False):
        """None if not enabled; (step, problem) or (len, None)"""
        self.lazy = lazy        # the getters are called after the last operation only
        self.setup(device)
        self.blurred = False
        if device:
            envs.set_hook(self.hook)
        try:
            for i, op in enumerate(h):
                if not self.enabled(op):
                    return None
                try:
                    p = self.apply(i, op) or (None if lazy and i < len(h) - 1 else self.look())
                except core.HarnessError:
                    raise
                except Exception as e:
                    if core.in_code_under_test(e.__traceback__) is None:
                        raise
                    p = "raised %r" % e
                if p:
                    return i, p
            return len(h), None
        finally:
            self.state = (tuple(sorted((n, f.size) for n, f in self.names.items())),
                          tuple((i, t.f.size, t.pend, t.locked, t.layer) for i, t in sorted(self.slots.items())))
            for t in self.slots.values():
                try:
                    t.s.close()
                except Exception:
                    pass
            for fd in self.dups:
                try:
                    R.close(fd)
                except OSError:
                    pass
            envs.set_hook(None)


def explore(ctx, name, alpha, depth, first):
    w = World(ctx)
    states = set()
    dead = set()

    for tail in itertools.product(alpha, repeat=depth - len(first)):
        h = first + tail
        if any(h[:k] in dead for k in range(1, depth)):
            continue
        res = w.run(h, name == "device")
        if res is None:
            for k in range(1, depth + 1):        # shortest disabled prefix
                if len(dead) < 200000 and w.run(h[:k], name == "device") is None:
                    dead.add(h[:k])
                    break
            continue
        ctx.stats.add("executions")
        ctx.stats.add("transitions", depth)
        i, p = res
        lazy = False
        if not p and name[:4] in ("move", "swap", "devi"):
            lazy = True
            ctx.stats.add("executions")
            i, p = w.run(h, name == "device", True)
        if p:
            ctx.violation("%s:%s" % (name.split("-")[0], p.split("(")[0].split(":")[-1].strip()[:40]), "world %s, %s: %s" % (name, list(h[:i + 1]), p),
                          {"world": name, "history": h[:i + 1], "lazy": lazy})
            return
        states.add(w.state)
    ctx.stats.add("states", len(states))
    for s in states:
        ctx.outcome(s)


def prepare(ctx):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()
    import multiprocessing.context


def bounds(ctx):
    return {n: {"alphabet": len(a), "depth": d} for n, (a, d) in worlds(ctx.quick).items()} | {"device and inode numbers": idnum.PAIRS}


def run(ctx):
    ctx.phase(histories)
    if not ctx.violations:
        ctx.phase(idnum.run)


def histories(ctx):
    W = worlds(ctx.quick)
    jobs = [(n, a, d, (op,) if d < 5 else (op, op2)) for n, (a, d) in W.items() for op in a for op2 in (a if d >= 5 else a[:1])]
    ctx.parallel(jobs, lambda c, j: explore(c, *j))
    ctx.sample("open A; rename A to B; create A; open A again: two ids; size of the first after a foreign write to B")


def replay(ctx, data):
    r = data["replay"]
    if "numbers" in r:
        return idnum.replay(ctx, r)
    w = World(ctx)
    h = tuple(tuple(o) for o in r["history"])
    res = w.run(h, r["world"] == "device", r["lazy"])
    if res and res[1]:
        ctx.violation("replay", "%s: %s" % (h, res[1]), r)
