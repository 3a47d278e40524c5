"""P05: data accessed only under locks is coherent between handles, threads and processes."""
import itertools
import os

from .. import core, sched
from ..envs import R
from ..hist import Model
from ..klock import Foreign

LEVEL = "model_checking"
RULE = ("(1) every sequence of critical sections up to a depth over a pair of streams and a foreign process, in lockstep with one byte array "
        "and one position per stream; (2) all schedules, up to a preemption bound at synchronization points and system calls, of two or three "
        "threads executing critical sections; after each release the file must hold everything written, each section must see the file as left by "
        "the previous one")
ASSUMPTIONS = ["every participant locks the whole file", "text streams in single-byte encodings without newline translation (others: P09)",
               "another process is played by an open-file-description lock owner using plain system calls"]

INIT = b"ab\ncd\nefgh"
LAYERS = {
    "raw": dict(mode="RWB", buffering=0, thread_safe=False),
    "buf": dict(mode="RWB", thread_safe=False),
    "buf4": dict(mode="RWB", buffering=4, thread_safe=False),
    "safe": dict(mode="RWB"),
    "text": dict(mode="RW", encoding="latin-1", newline="", thread_safe=False),
    "textsafe": dict(mode="RW", encoding="ascii", newline=""),
    "reader": dict(mode="RB", thread_safe=False),
    "reader4": dict(mode="RB", buffering=4),
    "treader": dict(mode="R", encoding="latin-1", newline="", thread_safe=False),
    "writer": dict(mode="WB", thread_safe=False),
    "writer3": dict(mode="WB", buffering=3),
    "app": dict(mode="AB", thread_safe=False),
    "app+": dict(mode="RAB", buffering=4),
    "tapp": dict(mode="A", encoding="ascii", newline=""),
    "io": dict(mode="rb+", builtin=True),
}
# what happens inside a critical section
READS = {"r1": [("read", 1)], "r3": [("read", 3)], "rl": [("readline",)], "s0r": [("seek", 0, 0), ("read", -1)], "it": [("next",)]}
WRITES = {"w2": [("write", 2)], "s1w": [("seek", 1, 0), ("write", 2)], "w5": [("write", 5)], "ew": [("seek", 0, 2), ("write", 2)],
          "nop": []}
BOTH = {"wsr": [("seek", 2, 0), ("write", 1), ("seek", 0, 0), ("read", 4)], "rw": [("read", 2), ("seek", 0, 1), ("write", 1)],
        "sz": [("write", 1), ("size",)], "tr": [("truncate", 4)], "trp": [("read", 1), ("truncate", None)]}
HOWS = ["unlock", "with", "exc", "close"]


class Boom(Exception):
    pass


def bodies(layer):
    m = LAYERS[layer]["mode"]
    r = "R" in m or "r" in m
    w = "W" in m or "A" in m or "+" in m
    text = "B" not in m and "b" not in m
    d = {}
    if r:
        d.update(READS)
        if text:
            d.pop("it")
    if w:
        d.update(WRITES)
    if r and w:
        d.update(BOTH)
        if text:
            for k in ("tr", "trp"):
                d.pop(k)
    elif w:
        d.update({k: BOTH[k] for k in ("sz", "tr") if not text})
    return d


FOREIGN = ["fset", "fapp", "ftrunc"]


class World:
    def __init__(self, ctx, layers):
        self.ctx, self.layers = ctx, layers
        self.path = os.path.join(ctx.scratch, "shared")
        self.log = []

    def begin(self):
        fd = R.open(self.path, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o666)
        R.pwrite(fd, INIT, 0)
        self.hfd = fd
        self.fo = Foreign(self.path)
        self.data = bytearray(INIT)
        self.models = []
        self.streams = []
        self.step = 0
        for l in self.layers:
            self.streams.append(None)
            self.models.append(None)
        for i in range(len(self.layers)):
            self.open(i)

    def open(self, i):
        kw = dict(LAYERS[self.layers[i]])
        m = kw["mode"]
        model = Model(b"", "R" in m or "r" in m, "W" in m or "A" in m or "+" in m, "A" in m)
        model.data = self.data              # one content for all
        model.pos = len(self.data) if model.a else 0
        self.models[i] = model
        if kw.pop("builtin", False):
            from rsfile.rsfile_utilities import BUILTIN_OPEN_FUNC_REPLACEMENT as o
            self.streams[i] = o(self.path, kw["mode"])
            return
        self.streams[i] = rsfile.rsopen(self.path, locking=False, **kw)

    def end(self):
        for s in self.streams:
            if s is not None:
                try:
                    s.close()
                except Exception:
                    pass
        self.fo.close()
        R.close(self.hfd)

    def content(self):
        return R.pread(self.hfd, 1 << 16, 0)

    def compare(self, when):
        got = self.content()
        if got != self.data:
            return "%s: file contains %r instead of %r" % (when, got, bytes(self.data))

    def payload(self, n, text):
        self.step += 1
        b = bytes(65 + (self.step * 7 + j) % 26 for j in range(n))
        return (b, b.decode()) if text else (b, b)

    def inside(self, i, ops):
        """operations of one critical section; returns a problem or None"""
        m, s = self.models[i], self.streams[i]
        text = "B" not in LAYERS[self.layers[i]]["mode"] and "b" not in LAYERS[self.layers[i]]["mode"]
        for op in ops:
            k = op[0]
            if k == "read":
                exp, got = m.read(op[1]), s.read(op[1])
            elif k == "readline":
                exp, got = m.readline(), s.readline()
            elif k == "next":
                exp = m.readline() or None
                got = next(s, None) if hasattr(s, "__next__") else next(iter(s), None)
            elif k == "write":
                b, d = self.payload(op[1], text)
                exp, got = m.write(b), s.write(d)
            elif k == "seek":
                if op[2] == 1 and not text and not hasattr(s, "wrapped_stream"):
                    pass
                exp, got = m.seek(op[1], op[2]), s.seek(op[1], op[2])
            elif k == "size":
                exp, got = m.size(), s.size()
            elif k == "truncate":
                exp, got = m.truncate(op[1]), s.truncate(op[1])
            if text and isinstance(got, str):
                got = got.encode("latin-1")
            if exp != got:
                return "%s returned %r instead of %r" % (k, got, exp)
        return None

    def section(self, i, name, how):
        """a critical section; returns a problem or None"""
        s = self.streams[i]
        ops = bodies(self.layers[i])[name]
        boom = Boom()
        if how in ("with", "exc"):
            p = None
            try:
                with s.lock_file():
                    p = self.compare("at the beginning of section %s" % name) or self.inside(i, ops)
                    if how == "exc":
                        raise boom
            except Boom as e:
                if e is not boom:
                    raise
            return p
        s.lock_file()
        p = self.compare("at the beginning of section %s" % name) or self.inside(i, ops)
        if p:
            return p
        if how == "unlock":
            s.unlock_file()
        else:
            self.streams[i] = None
            s.close()
        return None

    def foreign(self, name):
        p = self.compare("another process got the lock")
        if name == "fset":
            b, _ = self.payload(1, False)
            R.pwrite(self.hfd, b, 1)
            self.data[1:2] = b
            if len(self.data) < 2:
                self.data[:] = bytes(self.data).ljust(1, b"\0")[:1] + b
        elif name == "fapp":
            b, _ = self.payload(3, False)
            R.pwrite(self.hfd, b, len(self.data))
            self.data += b
        elif name == "ftrunc":
            R.ftruncate(self.hfd, 5)
            if len(self.data) > 5:
                del self.data[5:]
            else:
                self.data += bytes(5 - len(self.data))
        return p


# -- part 1: sequences -------------------------------------------------------------------------------------------------

def alphabet(layers, hows):
    a = []
    for i, l in enumerate(layers):
        for b in bodies(l):
            for h in hows:
                a.append((i, b, h))
    return a + [("f", n) for n in FOREIGN]


def seq_plans(quick):
    p = []
    one = ["raw", "buf", "buf4", "safe", "text", "textsafe", "reader", "reader4", "treader", "writer", "writer3", "app", "app+", "tapp", "io"]
    for l in one:
        p.append(((l,), ("unlock", "with"), 3 if quick else 4))
        p.append(((l,), ("exc", "close"), 2 if quick else 3))
    pairs = [("buf", "buf"), ("buf4", "text"), ("text", "text"), ("reader", "writer"), ("app+", "buf"), ("treader", "tapp"), ("raw", "buf4"),
             ("safe", "textsafe"), ("io", "reader4")]
    for pr in pairs:
        p.append((pr, ("unlock",), 3 if quick else 4))
        if not quick:
            p.append((pr, ("with", "close"), 3))
    return p


def run_seq(w, seq):
    w.begin()
    try:
        for n, op in enumerate(seq):
            try:
                if op[0] == "f":
                    if not w.fo.lock(0, None, False):
                        return n, "another process cannot get the lock"
                    p = w.foreign(op[1])
                    w.fo.unlock()
                else:
                    if w.streams[op[0]] is None:
                        w.open(op[0])
                    p = w.section(*op)
                    p = p or w.compare("after releasing the lock")
            except Exception as e:
                p = "raised %s: %s" % (type(e).__name__, e)
            if p:
                return n, p
        return None
    finally:
        w.end()


def explore_seq(ctx, layers, hows, depth, first):
    w = World(ctx, layers)
    alpha = alphabet(layers, hows)
    states = set()
    for tail in itertools.product(alpha, repeat=depth - len(first)):
        seq = tuple(first) + tail
        res = run_seq(w, seq)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", len(seq))
        if res:
            n, p = res
            op = seq[n]
            ctx.violation("seq:%s:%s" % ("/".join(layers), op[1]), "streams %s, critical sections %s: %s" % (
                "/".join(layers), " ; ".join("-".join(map(str, o)) for o in seq[:n + 1]), p),
                {"layers": layers, "seq": [list(o) for o in seq[:n + 1]]})
        else:
            states.add((bytes(w.data),) + tuple(m.pos for m in w.models))
    ctx.stats.add("states", len(states))
    ctx.outcome((layers, len(states)))


def phase_seq(ctx):
    global rsfile
    rsfile = core.import_rsfile()
    jobs = [(l, h, d, (op,)) for l, h, d in seq_plans(ctx.quick) for op in alphabet(l, h)]
    ctx.parallel(jobs, lambda c, j: explore_seq(c, *j))


# -- part 2: schedules -------------------------------------------------------------------------------------------------

def threads_plans(quick):
    P = []
    for a, b in (("buf", "buf"), ("text", "buf4"), ("safe", "textsafe"), ("app+", "buf"), ("raw", "text"), ("io", "safe")):
        for h1, h2 in (("unlock", "unlock"), ("with", "exc"), ("close", "with"), ("close", "close")):
            P.append(dict(name="%s-%s/%s-%s" % (a, h1, b, h2), layers=(a, b),
                          threads=[[(0, "s1w", h1), (0, "r3", h1)], [(1, "rw", h2), (1, "w2", h2)]], bound=2))
    P.append(dict(name="foreign", layers=("buf", "text"), threads=[[(0, "s1w", "unlock"), (0, "s0r", "with")], [("f", "fset"), ("f", "fapp")],
                                                                   [(1, "rw", "close")]], bound=2))
    P.append(dict(name="three", layers=("buf", "text", "app+"), threads=[[(0, "rw", "with")], [(1, "rw", "unlock")], [(2, "w5", "close")]], bound=2))
    P.append(dict(name="reader-writer", layers=("reader4", "writer3"), threads=[[(0, "r1", "unlock"), (0, "r3", "with")],
                                                                                [(1, "s1w", "unlock"), (1, "ew", "close")]], bound=2))
    P.append(dict(name="readers-writer", layers=("treader", "reader", "writer"), threads=[[(0, "r1", "with"), (0, "r3", "with")], [(1, "rl", "unlock")],
                                                                                          [(2, "w5", "exc")]], bound=2))
    P.append(dict(name="open-locked", layers=("raw", "raw"), threads=[[("open", "RW", "w2"), ("open", "R", "r3")], [("open", "RWB", "rw"),
                                                                                                                 ("open", "AB", "w2")]], bound=2))
    for p in P:
        if not quick:
            p["bound"] += 1
    return P


class TWorld(World):
    def body(self, prog):
        def run():
            for op in prog:
                if op[0] == "f":
                    e = sched.ENGINE
                    e.point("flock")
                    while True:
                        v = e.kernel_version
                        if self.fo.lock(0, None, False):
                            break
                        e.block(e.me(), lambda: e.kernel_version != v)
                    p = self.foreign(op[1])
                    e.point("inside")
                    self.fo.unlock()
                    e.kernel_changed()
                elif op[0] == "open":
                    p = self.opened(op[1], op[2])
                else:
                    if self.streams[op[0]] is None:
                        self.open(op[0])
                    p = self.section(*op)
                if p:
                    self.problem = self.problem or p
                    x = sched.ENGINE
                    x.failure = x.failure or p
                    return
        return run

    def opened(self, mode, name):
        """critical section made of open (locking by default) ... close"""
        kw = {} if "B" in mode else dict(encoding="ascii", newline="")
        s = rsfile.rsopen(self.path, mode, **kw)
        m = Model(b"", "R" in mode, "W" in mode or "A" in mode, "A" in mode)
        m.data = self.data
        m.pos = len(self.data) if m.a else 0
        p = self.compare("just opened with a lock")
        self.layers.append("safe" if "B" in mode else "textsafe")
        self.streams.append(s)
        self.models.append(m)
        i = len(self.streams) - 1
        ops = dict(READS, **WRITES, **BOTH)[name]
        p = p or self.inside(i, ops)
        s.close()
        return p


def run_threads(ctx, plan, shard, prefix=None):
    def make():
        w = TWorld(ctx, list(plan["layers"]))
        w.problem = None
        w.begin()

        def check(x):
            p = w.problem
            for t in x.threads:
                if t.error is not None and not p and not x.failure:
                    p = "thread %s: %s: %s" % (t.name, type(t.error).__name__, t.error)
                t.error = None
            if not p and not x.failure:
                for i, s in enumerate(w.streams):
                    if s is not None:
                        w.streams[i] = None
                        s.close()
                p = w.compare("at the end")
                ctx.outcome(bytes(w.data))
            w.end()
            return p
        return [w.body(p) for p in plan["threads"]], check, None

    def on_done(x, problem, choices):
        trace = ["%s@%s->%s" % l for l in x.labels if l[0] != l[2]]
        ctx.violation("threads:%s" % plan["name"], "scenario %s: %s   [switches: %s]" % (plan["name"], problem, ", ".join(trace)[:600]),
                      {"plan": plan["name"], "choices": choices, "bound": plan["bound"]})
    if prefix is not None:
        bodies_, check, _ = make()
        x = sched.Execution(bodies_, prefix, bound=plan["bound"]).run()
        p = x.failure
        p2 = check(x)
        if p or p2:
            on_done(x, p or p2, prefix)
    else:
        sched.explore(ctx, make, plan["bound"], shard=shard, on_done=on_done)


def phase_threads(ctx):
    global rsfile
    sched.install()
    rsfile = core.import_rsfile()
    ctx.pin = True
    plans = threads_plans(ctx.quick)
    jobs = [(i, k, 8) for i in range(len(plans)) for k in range(8)]
    ctx.parallel(jobs, lambda c, j: run_threads(c, plans[j[0]], (j[1], j[2])))


def prepare(ctx):
    pass


def bounds(ctx):
    return {"sequences": {"%s %s" % ("/".join(l), "/".join(h)): {"alphabet": len(alphabet(l, h)), "depth": d} for l, h, d in seq_plans(ctx.quick)},
            "schedules": {p["name"]: p["bound"] for p in threads_plans(ctx.quick)}}


def run(ctx):
    ctx.phase(phase_seq)
    if not ctx.violations:
        ctx.phase(phase_threads)
    ctx.sample("buf4/text: 0-r1-unlock ; f-fset ; 1-rw-unlock")


def replay(ctx, data):
    global rsfile
    r = data["replay"]
    if "seq" in r:
        rsfile = core.import_rsfile()
        seq = tuple(tuple(o) for o in r["seq"])
        explore_seq(ctx, tuple(r["layers"]), (), len(seq), seq)
    else:
        sched.install()
        rsfile = core.import_rsfile()
        plan = {p["name"]: p for p in threads_plans(True)}[r["plan"]]
        plan["bound"] = r["bound"]
        run_threads(ctx, plan, (0, 1), prefix=r["choices"])
