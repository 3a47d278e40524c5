"""P15: append streams write at the end of the file as it is at that moment."""
import itertools
import os

from . import p18
from .. import core, envs, hist
from ..envs import R

LEVEL = "model_checking"
RULE = ("every sequence of exactly `depth` operations of one or two append streams and a foreign writer; after each the file must be the "
        "previous content plus a prefix of the data still buffered (all of it after flush/size/sync/close); a state is a distinct "
        "(content, buffered bytes); then every placement of one or two appends or truncations by others before the system calls of short histories; then all schedules, up to the preemption bound, of two or three threads appending under the default locking while "
        "the system writes at most 3 bytes at once")
ASSUMPTIONS = ["O_APPEND is honoured by the file system"]

OWN = [("w", 0, 2), ("w", 0, 5), ("wl", 0), ("seek", 0, 0), ("seek", 0, 2), ("trunc", 0, 1), ("trunc", 0, 12), ("trunc", 0, None), ("flush", 0),
       ("size", 0), ("sync", 0), ("reopen", 0)]
FOREIGN = [("fapp", 2), ("ftrunc", 1), ("fset", 0)]
SECOND = [("w", 1, 3), ("flush", 1), ("trunc", 1, 2)]
READ = [("read", 0, 2), ("read", 0, -1)]

# name, kwargs of rsopen, readable
STREAMS = {
    "raw": (dict(mode="AB", buffering=0, thread_safe=False), False),
    "raw+": (dict(mode="RAB", buffering=0, thread_safe=False), True),
    "raw-std": (dict(mode="ab+", buffering=0), True),
    "raw-wa": (dict(mode="RWAB", buffering=0, thread_safe=False), True),
    "raw-sync": (dict(mode="ASB", buffering=0, thread_safe=False), False),
    "raw-nocreate": (dict(mode="ANB", buffering=0, thread_safe=False), False),
    "buf3": (dict(mode="AB", buffering=3, thread_safe=False), False),
    "buf": (dict(mode="ab"), False),
    "buf+3": (dict(mode="RAB", buffering=3, thread_safe=False), True),
    "buf+": (dict(mode="ab+", thread_safe=False), True),
    "text": (dict(mode="A", thread_safe=False, encoding="ascii"), False),
    "text+": (dict(mode="a+", encoding="ascii", buffering=4), False),
    "fileno": (dict(mode="RAB", buffering=0, thread_safe=False, fileno=True), True),
    "opener": (dict(mode="ab", buffering=0, opener=True), False),
    "io": (dict(builtin=True, mode="ab", buffering=0), False),
    "iobuf": (dict(builtin=True, mode="a+b"), True),
}


def alphabet(name, two):
    kw, readable = STREAMS[name]
    ops = OWN + FOREIGN
    if readable:
        ops = ops + READ
    if kw.get("fileno"):
        ops = [o for o in ops if o[0] != "reopen"]
    if two:
        ops = ops + SECOND
    return ops


def plans(quick):
    p = []
    for n in STREAMS:
        p.append((n, None, 4 if quick else 5))
    for a, b in (("raw", "raw"), ("buf3", "buf"), ("buf+3", "text"), ("text", "raw"), ("raw+", "buf3")):
        p.append((a, b, 4))
    return p


def bounds(ctx):
    return {"%s/%s" % (a, b): {"alphabet": len(alphabet(a, b)), "depth": d} for a, b, d in plans(ctx.quick)} | \
        {"concurrent programs": p18.APPENDERS, "preemptions": 2 if ctx.quick else 3}


def prepare(ctx):
    pass


class W:
    def __init__(self, ctx):
        self.ctx = ctx
        self.path = os.path.join(ctx.scratch, "app")

    def open(self, name):
        kw = dict(STREAMS[name][0])
        if kw.pop("fileno", False):
            fd = R.open(self.path, os.O_RDWR | os.O_APPEND)
            return rsfile.rsopen(None, fileno=fd, locking=False, **kw)
        if kw.pop("builtin", False):
            from rsfile.rsfile_utilities import BUILTIN_OPEN_FUNC_REPLACEMENT as o
            return o(self.path, **kw)
        if kw.pop("opener", False):
            kw["opener"] = lambda n, flags: R.open(n, flags, 0o666)
        return rsfile.rsopen(self.path, locking=False, **kw)

    def content(self):
        return R.pread(self.hfd, 1 << 16, 0)

    def run(self, names, h):
        self.hfd = R.open(self.path, os.O_RDWR | os.O_CREAT, 0o666)
        R.ftruncate(self.hfd, 0)
        R.pwrite(self.hfd, b"01234", 0)
        C = bytearray(b"01234")
        sts = [self.open(n) for n in names if n]
        pend = [bytearray() for _ in sts]
        raw = [STREAMS[n][0].get("buffering") == 0 for n in names if n]
        text = [n.startswith("text") for n in names if n]
        try:
            for i, op in enumerate(h + (("end",),)):
                k = op[0]
                if k == "fapp":
                    d = bytes(97 + i for _ in range(op[1]))
                    R.pwrite(self.hfd, d, len(C))
                    C += d
                elif k == "ftrunc":
                    R.ftruncate(self.hfd, op[1])
                    C = C[:op[1]] + bytes(max(0, op[1] - len(C)))
                elif k == "fset":
                    R.pwrite(self.hfd, b"#", 0)
                    C[:1] = b"#"
                else:
                    which = range(len(sts)) if k == "end" else [op[1]]
                    for s in which:
                        st = sts[s]
                        full, size, new = raw[s], None, b""
                        err = None
                        try:
                            if k in ("w", "wl"):
                                n = op[2] if k == "w" else 3
                                new = bytes(65 + (i * 6 + j + s * 13) % 26 for j in range(n))
                                d = new.decode() if text[s] else new
                                if k == "w":
                                    r = st.write(d)
                                    if r != n:
                                        return i, "write returned %r" % (r,)
                                else:
                                    st.writelines([d[:1], d[1:]])
                            elif k == "seek":
                                st.seek(op[2])
                            elif k == "trunc":
                                full = True
                                if op[2] is not None:
                                    size = op[2]
                                    if st.truncate(size) != size:
                                        return i, "truncate returned another size"
                                else:
                                    size = st.truncate()
                            elif k in ("flush", "size", "sync"):
                                full = True
                                r = getattr(st, k)()
                                if k == "size" and r != len(C) + len(pend[s]):
                                    return i, "size returned %r" % r
                            elif k == "read":
                                st.read(op[2])
                            elif k == "reopen":
                                full = True
                                st.close()
                                sts[s] = self.open(names[s])
                            elif k == "end":
                                full = True
                                st.close()
                        except Exception as e:
                            return i, "raised %r" % e
                        pend[s] += new
                        got = self.content()
                        if k == "trunc":
                            C += pend[s]
                            pend[s] = bytearray()
                            C = C[:size] + bytes(max(0, size - len(C)))
                            if got != C:
                                return i, "file contains %r instead of %r" % (got, bytes(C))
                            if op[2] is None and size > max(14, len(C)):
                                return i, "truncated to %d" % size
                            continue
                        if not got.startswith(bytes(C)):
                            return i, "existing bytes %r became %r" % (bytes(C), got)
                        add = got[len(C):]
                        if not pend[s].startswith(add) or (full and len(add) != len(pend[s])):
                            return i, "appended %r, data written since the last flush is %r" % (add, bytes(pend[s]))
                        C = bytearray(got)
                        pend[s] = pend[s][len(add):]
                got = self.content()
                if got != C:
                    return i, "file contains %r instead of %r" % (got, bytes(C))
            self.final = bytes(C)
            return None
        finally:
            for st in sts:
                try:
                    st.close()
                except Exception:
                    pass
            R.close(self.hfd)


def explore(ctx, a, b, depth, first):
    w = W(ctx)
    alpha = alphabet(a, b)
    states = set()
    for tail in itertools.product(alpha, repeat=depth - len(first)):
        h = tuple(first) + tail
        if any(h[i][0] in ("read",) and i + 1 < len(h) and h[i + 1][0] in ("w", "wl") and a.startswith("text") for i in range(len(h))):
            continue
        res = w.run([a, b], h)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", len(h))
        if res:
            i, p = res
            h = h[:i + 1]
            ctx.violation("%s/%s:%s" % (a, b, h[i][0] if i < len(h) else "end"), "streams %s, %s: after %s: %s" % (a, b, hist.fmt(h), p),
                          {"a": a, "b": b, "history": [list(o) for o in h]})
        else:
            states.add(w.final)
            ctx.outcome(w.final)
    ctx.stats.add("states", len(states))
    ctx.stats.add("nontrivial", len(states))


# -- others acting between the system calls of one operation ---------------------------------------------------------------

RACE_OPS = [("w", 0, 2), ("w", 0, 5), ("flush", 0), ("seek", 0, 0), ("size", 0), ("trunc", 0, None)]


class Race:
    """before each system call on the descriptor, others may append or truncate; no call may change existing bytes, or write elsewhere than at the end"""

    def __init__(self, prefix, content, hfd):
        self.prefix, self.points, self.content, self.hfd = prefix, [], content, hfd
        self.problem, self.own, self.fds, self.busy = None, bytearray(), set(), False

    def __call__(self, name, real, a, kw):
        if name == "open" and not self.busy:
            fd = real(*a, **kw)
            self.fds.add(fd)
            return fd
        if not a or a[0] not in self.fds:
            return real(*a, **kw)
        if name == "close":
            self.fds.discard(a[0])
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((3, c))
        before = self.content()
        if c == 1:
            R.pwrite(self.hfd, b"##", len(before))
        elif c == 2:
            R.ftruncate(self.hfd, max(0, len(before) - 2))
        before = self.content()
        r = real(*a, **kw)
        after = self.content()
        if name in ("ftruncate", "truncate"):
            if after[:len(before)] != before[:len(after)]:
                self.problem = self.problem or "truncation of %r gave %r" % (before, after)
        elif not after.startswith(before):
            self.problem = self.problem or "%s changed %r to %r" % (name, before, after)
        else:
            self.own += after[len(before):]
        return r


def race(ctx, name, h, prefix):
    w = W(ctx)
    w.hfd = R.open(w.path, os.O_RDWR | os.O_CREAT, 0o666)
    R.ftruncate(w.hfd, 0)
    R.pwrite(w.hfd, b"01234", 0)
    text = name.startswith("text")
    env = Race(prefix, w.content, w.hfd)
    data = b""
    st = None
    try:
        st = w.open(name)
        env.fds.add(st.fileno())
        envs.set_hook(env)
        for i, op in enumerate(h):
            if op[0] == "w":
                d = bytes(65 + (i * 6 + j) % 26 for j in range(op[2]))
                data += d
                st.write(d.decode() if text else d)
            elif op[0] == "seek":
                st.seek(op[2])
            elif op[0] == "trunc":
                st.truncate()
            else:
                getattr(st, op[0])()
        st.close()
    except Exception as e:
        if core.in_code_under_test(e.__traceback__) is None:
            raise
        env.problem = env.problem or "raised %r" % e
    finally:
        envs.set_hook(None)
        if st is not None:
            try:
                st.close()
            except Exception:
                pass
        R.close(w.hfd)
    if not env.problem and bytes(env.own) != data:
        env.problem = "wrote %r, the system received %r at the ends of the file" % (data, bytes(env.own))
    return env


def races(ctx):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()
    jobs = [(n, h) for n in STREAMS for d in (1, 2, 3) for h in itertools.product(RACE_OPS, repeat=d) if any(o[0] == "w" for o in h)]

    def job(c, j):
        n, h = j
        stack = [[]]
        while stack:
            prefix = stack.pop()
            env = race(c, n, h, prefix)
            c.stats.add("executions")
            c.stats.add("transitions", len(env.points))
            if env.problem:
                c.violation("race:%s" % env.problem[:12], "stream %s, %s, others acting (1: append, 2: truncate) before its system calls: %s: %s" % (
                    n, hist.fmt(h), [x for _, x in env.points], env.problem), {"race": n, "history": [list(o) for o in h], "prefix": [x for _, x in env.points]})
                return
            choices = [x for _, x in env.points]
            c.outcome((n, h, tuple(choices)))
            if sum(1 for x in prefix if x) < (2 if len(h) < 3 or not c.quick else 1):
                for i in range(len(prefix), len(env.points)):
                    for alt in (1, 2) if ("trunc", 0, None) not in h else (1,):         # a truncation extends what others shortened
                        stack.append(choices[:i] + [alt])

    ctx.parallel(jobs, job)


def sequential(ctx):
    global rsfile
    rsfile = core.import_rsfile()
    jobs = [(a, b, d, (op,)) for a, b, d in plans(ctx.quick) for op in alphabet(a, b)]
    ctx.parallel(jobs, lambda c, j: explore(c, *j))
    ctx.sample("buf3/buf: " + hist.fmt([("w", 0, 5), ("fapp", 2), ("seek", 0, 0), ("w", 1, 3)]))


def run(ctx):
    ctx.phase(sequential)
    if not ctx.violations:
        ctx.phase(races)
    if not ctx.violations:
        ctx.phase(lambda c: p18.threads(c, p18.APPENDERS))


def replay(ctx, data):
    global rsfile
    r = data["replay"]
    if "threads" in r:
        return p18.replay(ctx, data)
    if "race" in r:
        envs.install()
    rsfile = core.import_rsfile()
    h = tuple(tuple(o) for o in r["history"])
    if "race" in r:
        env = race(ctx, r["race"], h, r["prefix"])
        if env.problem:
            ctx.violation("replay", "%s: %s" % (hist.fmt(h), env.problem), r)
        return
    explore(ctx, r["a"], r["b"], len(h), h)
