"""P06: concurrent calls on one thread-safe stream are linearizable. All schedules at source-line granularity, up to a bound."""
import os

from .. import core, sched
from ..envs import R

LEVEL = "model_checking"
RULE = ("for every pair of operations and every stream layer: all schedules of two threads with at most the stated number of preemptions, at every "
        "source line of rsfile and of the standard library's stream classes; results, final position and file content must equal those of "
        "one of the sequential orders of the calls (executed on the same code)")
ASSUMPTIONS = ["CPython threads switch between source lines, mutex operations and system calls", "the sequential behaviour itself is judged by P08 and P09"]

INIT = b"ab\ncd\nefgh"
LAYERS = {
    "raw": dict(mode="RWB", buffering=0),
    "buf4": dict(mode="RWB", buffering=4),
    "buf": dict(mode="rb+"),
    "text": dict(mode="RW", encoding="ascii", newline=""),
    "text3": dict(mode="r+", encoding="ascii", buffering=3),
    "reader": dict(mode="RB", buffering=4),
    "writer": dict(mode="WB", buffering=4),
    "app": dict(mode="RAB", buffering=4),
    "inherit": dict(mode="RWIB", buffering=4),
    "mutex": dict(mode="RWB", buffering=4, mutex=True),
}


def d(s, text):
    return s if text else s.encode()


def op_read(s, t): return s.read(2)
def op_readall(s, t): return s.read()
def op_readline(s, t): return s.readline()
def op_readlines(s, t): return s.readlines()
def op_next(s, t): return next(iter(s))
def op_list(s, t): return len(list(s)) and None
def op_readinto(s, t):
    b = bytearray(3)
    return s.readinto(b), bytes(b)
def op_write(s, t): return s.write(d("XY", t))
def op_write5(s, t): return s.write(d("12345", t))
def op_writelines(s, t): return s.writelines([d("p\n", t), d("q\n", t)])
def op_seek(s, t): return s.seek(1)
def op_seekend(s, t): return s.seek(0, 2)
def op_tell(s, t): return s.tell()
def op_truncate(s, t): return s.truncate(3)
def op_truncpos(s, t): return s.truncate()
def op_size(s, t): return s.size()
def op_sync(s, t): return s.sync()
def op_flush(s, t): return s.flush()
def op_close(s, t): return s.close()
def op_exit(s, t):
    with s:
        pass
def op_exitonly(s, t): return s.__exit__(None, None, None)
def op_lockw(s, t):
    with s.lock_file(timeout=0, length=4):
        s.write(d("K", t))
def op_locku(s, t):
    s.lock_file(timeout=0, length=3, offset=8)
    s.unlock_file(length=3, offset=8)
def op_uid(s, t): return bool(s.unique_id())
def op_peek(s, t): return len(s.peek(1)) and None
def op_held(s, t):
    with s.mutex:
        a = s.seek(2)
        b = s.write(d("H", t))
        return a, b, s.tell()
def op_heldread(s, t):
    with s.mutex:
        s.seek(0)
        return s.read(1), s.read(1)
def op_two(s, t):
    return [("1",)]


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith("op_")}
COMPOUND = {"exit", "lockw", "locku", "writelines", "list", "held", "heldread", "next"}
R_ = ["read", "readall", "readline", "readinto", "next", "list", "peek", "readlines"]
W_ = ["write", "write5", "writelines", "truncate", "truncpos", "sync", "flush"]
C_ = ["seek", "seekend", "tell", "size", "close", "exitonly"]
# programs of one thread, one or several calls; a list of calls is atomic call by call
SINGLE = {
    "raw": ["read", "readall", "readline", "readinto", "next", "write", "writelines", "seek", "seekend", "tell", "truncate", "size", "sync",
            "close", "exitonly", "held", "uid"],
    "buf4": ["read", "readall", "readline", "readinto", "next", "peek", "readlines", "write", "write5", "writelines", "seek", "seekend", "tell",
             "truncate", "truncpos", "size", "sync", "flush", "close", "exitonly", "held", "heldread", "locku"],
    "buf": ["read", "write", "close", "held", "size"],
    "text": ["read", "readall", "readline", "next", "readlines", "write", "writelines", "seek", "seekend", "tell", "truncate", "size", "sync", "flush",
             "close", "exitonly", "held", "locku"],
    "text3": ["read", "readline", "write", "held", "close"],
    "reader": ["read", "readall", "readline", "next", "seek", "tell", "close", "heldread", "peek"],
    "writer": ["write", "write5", "writelines", "flush", "truncate", "seek", "close", "size", "held"],
    "app": ["write", "write5", "read", "size", "close"],
    "inherit": ["read", "write", "held", "close"],
    "mutex": ["read", "write5", "held", "close", "exitonly"],
}
# operations made of several calls: each call is atomic, their sequence is not
PARTS = {
    "next": lambda s, t: [lambda st: st.update(it=iter(s)), lambda st: next(st["it"])],
    "locku": lambda s, t: [lambda st: s.lock_file(timeout=0, length=3, offset=8) and None, lambda st: s.unlock_file(length=3, offset=8)],
}
DOUBLES = {"buf4": [("write", "read"), ("seek", "write"), ("read", "close"), ("write5", "flush"), ("lockw",), ("exit",), ("list",)],
           "text": [("write", "tell"), ("seek", "readline"), ("lockw",), ("exit",), ("list",)],
           "raw": [("seek", "write"), ("write", "close"), ("lockw",)]}
SECOND = {"buf4": ["read", "write", "close", "seek", "truncate", "held", "size"], "text": ["read", "write", "close", "held"], "raw": ["write", "read", "close"]}


def calls_of(prog, s, t):
    """list of atomic calls (functions of a per-thread dictionary)"""
    res = []
    for name in prog:
        if name in PARTS:
            res += PARTS[name](s, t)
        elif name == "lockw":
            def enter(st):
                st["cm"] = s.lock_file(timeout=0, length=4)
                st["cm"].__enter__()
            res += [enter, lambda st: s.write(d("K", t)), lambda st: st["cm"].__exit__(None, None, None)]
        elif name == "exit":
            res += [lambda st: s.__enter__() and None, lambda st: s.__exit__(None, None, None)]
        elif name == "list":
            def it(st):
                st["l"], st["it"] = [], iter(s)
            res.append(it)
            for _ in range(4):
                def nx(st):
                    if st["it"] is not None:
                        try:
                            st["l"].append(next(st["it"]))
                        except StopIteration:
                            st["it"] = None
                    return None
                res.append(nx)
            res.append(lambda st: st["l"])
        else:
            res.append(lambda st, name=name: OPS[name](s, t))
    return res


def run_calls(calls, out):
    st = {}
    for c in calls:
        try:
            r = c(st)
        except sched.Abort:
            raise
        except Exception as e:
            out.append(type(e).__name__)
            return
        out.append(r)


class World:
    def __init__(self, ctx, layer):
        self.ctx, self.layer = ctx, layer
        self.path = os.path.join(ctx.scratch, "p06")
        kw = LAYERS[layer]
        self.text = "b" not in kw["mode"].lower()

    def open(self):
        self.hfd = R.open(self.path, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o666)
        R.pwrite(self.hfd, INIT, 0)
        kw = dict(LAYERS[self.layer])
        if kw.get("mutex"):
            import threading
            kw["mutex"] = threading.RLock()
        self.s = rsfile.rsopen(self.path, locking=False, **kw)

    def finish(self, outs):
        s = self.s
        closed = s.closed
        pos = None
        if not closed:
            try:
                pos = s.tell()
            except Exception as e:
                pos = type(e).__name__
        s.close()
        self.s = None
        data = R.pread(self.hfd, 1000, 0)
        R.close(self.hfd)
        return tuple(repr(o) for o in outs), closed, pos, data


def sequential(ctx, layer, progs):
    """outcomes of all sequential merges of the threads' calls"""
    w = World(ctx, layer)
    w.open()
    lens = [len(calls_of(p, w.s, w.text)) for p in progs]
    w.finish([])

    def merges(rest):
        if not any(rest):
            yield []
            return
        for i, n in enumerate(rest):
            if n:
                for m in merges(rest[:i] + [n - 1] + rest[i + 1:]):
                    yield [i] + m
    res = set()
    for m in merges(lens):
        w = World(ctx, layer)
        w.open()
        calls = [calls_of(p, w.s, w.text) for p in progs]
        outs = [[] for _ in progs]
        st = [{} for _ in progs]
        stop = [False] * len(progs)
        for i in m:
            c = calls[i].pop(0)
            if stop[i]:
                continue
            try:
                outs[i].append(c(st[i]))
            except Exception as e:
                outs[i].append(type(e).__name__)
                stop[i] = True
        st = calls = c = None
        res.add(w.finish(outs))
    return res


def pairs(quick):
    P = []
    for layer, ops in SINGLE.items():
        for i, a in enumerate(ops):
            for b in ops[i:]:
                P.append((layer, ((a,), (b,))))
    for layer, progs in DOUBLES.items():
        for p in progs:
            for b in SECOND[layer]:
                P.append((layer, (p, (b,))))
    return P


def prepare(ctx):
    global rsfile, LINES
    sched.install()
    rsfile = core.import_rsfile()
    import _pyio
    LINES = (core.SRC + "/rsfile/", _pyio.__file__)
    ctx.pin = True


def bounds(ctx):
    return {"pairs of programs": len(pairs(ctx.quick)), "preemptions at source lines": 1, "preemptions at mutex and system-call points": 2 if ctx.quick else 3,
            "preemptions at source lines (stream classes only, thorough)": None if ctx.quick else 2}


def run_pair(ctx, layer, progs, bound, lines, shard=(0, 1), prefix=None):
    expected = sequential(ctx, layer, progs)

    def make():
        w = World(ctx, layer)
        w.open()
        outs = [[] for _ in progs]

        def body(i):
            def f():
                run_calls(calls_of(progs[i], w.s, w.text), outs[i])
            return f

        def check(x):
            p = None
            for t in x.threads:
                if t.error is not None and not x.failure:
                    p = "thread %s: %r" % (t.name, t.error)
                t.error = None
            try:
                got = w.finish(outs)
            except Exception as e:
                return p or "closing: %r" % e
            if not p and not x.failure:
                ctx.outcome((layer, progs, got))
                if got not in expected:
                    p = "results %s, closed %s, position %r, file %r match no sequential order; possible: %s" % (
                        got[0], got[1], got[2], got[3], sorted(expected, key=repr)[:3])
            return p
        return [body(i) for i in range(len(progs))], check, None

    def on_done(x, problem, choices):
        trace = ["%s@%s->%s" % l for l in x.labels if l[0] != l[2]]
        ctx.violation("%s:%s" % (layer, "|".join(sorted("+".join(p) for p in progs))), "layer %s, threads %s: %s   [switches: %s]" % (
            layer, " | ".join("+".join(p) for p in progs), problem, ", ".join(trace)[:600]),
            {"layer": layer, "progs": progs, "choices": choices, "bound": bound, "lines": bool(lines)})
    if prefix is not None:
        bodies, check, _ = make()
        x = sched.Execution(bodies, prefix, lines, bound=bound).run()
        p = x.failure
        p2 = check(x)
        if p or p2:
            on_done(x, p or p2, prefix)
        return
    sched.explore(ctx, make, bound, lines, shard, on_done)


def run(ctx):
    P = pairs(ctx.quick)
    jobs = [(i, 1, True) for i in range(len(P))] + [(i, 2 if ctx.quick else 3, False) for i in range(len(P))]
    if not ctx.quick:
        jobs += [(i, 2, "own") for i in range(len(P)) if P[i][0] in ("raw", "buf4", "text")]

    def job(c, j):
        i, bound, lines = j
        layer, progs = P[i]
        run_pair(c, layer, progs, bound, LINES if lines is True else LINES[:1] if lines else ())
    ctx.parallel(jobs, job)
    ctx.sample("layer buf4: read(2) | write(5 bytes), preempted at each source line of either")


def replay(ctx, data):
    r = data["replay"]
    run_pair(ctx, r["layer"], tuple(tuple(p) for p in r["progs"]), r["bound"], LINES if r["lines"] else (), prefix=r["choices"])
