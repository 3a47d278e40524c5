"""P12: truncation through every layer, in every reachable buffer state; also without native extension."""
import os

from .. import core, envs, hist
from ..envs import R
from ..hist import Config

LEVEL = "model_checking"
RULE = "every sequence of exactly `depth` calls over truncate-centred alphabets, in lockstep with the byte-file model; a state is a distinct (content, position)"
ASSUMPTIONS = ["'no native extension' is played by an ftruncate that reports success but never grows the file"]

OPS = [("truncate", None), ("truncate", 0), ("truncate", 2), ("truncate", 7), ("truncate", 9), ("truncate", 15),
       ("truncate", 14, True), ("truncate", 13, False), ("truncate", 3, False), ("truncate", -1),
       ("write", 2), ("write", 7), ("read", 2), ("read", -1), ("seek", 0), ("seek", 4), ("seek", 12), ("tell",), ("size",), ("flush",)]
BIGOPS = [("truncate", 20000), ("truncate", 8192), ("truncate", 8193), ("truncate", 16384), ("truncate", 5), ("write", 3), ("seek", 2), ("tell",),
          ("read", 4)]


FAROPS = hist.FAR_OPS + [("truncate", 40, True), ("truncate", 41, False), ("truncate", 8, False)]


def nogrow(name, real, a, k):
    if name == "ftruncate" and R.fstat(a[0]).st_size < a[1]:
        return None
    if name in ("posix_fallocate", "truncate"):
        return None
    return real(*a, **k)


def short_nogrow(name, real, a, k):
    if name == "write" and len(a[1]) > 100:
        a = (a[0], a[1][:len(a[1]) // 2 + 1])
    return nogrow(name, real, a, k)


def configs(quick):
    d = 3 if quick else 4
    c = []
    for mode in ("RWB", "WB", "AB", "RAB", "RB"):
        for b in (0, 3, -1):
            c.append((Config("%s-b%d" % (mode, b), mode, b), OPS, d, None))
    for b in (0, 5):
        c.append((Config("safe-b%d" % b, "RWB", b, safe=True), OPS, 3, None))
    for mode in ("RWB", "WB", "RAB"):
        for b in (0, 3):
            c.append((Config("nogrow-%s-b%d" % (mode, b), mode, b), OPS, d, nogrow))
            c.append((Config("nogrowbig-%s-b%d" % (mode, b), mode, b), BIGOPS, 3, nogrow))
    c.append((Config("nogrowshort-RWB", "RWB", 0), BIGOPS, 3, short_nogrow))
    for base in hist.FAR:
        for mode, b in (("RWB", 0), ("RWB", 3), ("WB", -1), ("RAB", 3)):
            c.append((Config("far%d-%s-b%d" % (base, mode, b), mode, b, base=base, initial=hist.FAR_INITIAL), FAROPS, 3, None))
    return c


TEXT_OPS = [("truncate", None), ("truncate", 0), ("truncate", 4), ("truncate", 12), ("truncate", 11, False), ("truncate", 13, True),
            ("truncate", -1), ("write", 2), ("write", 9), ("read", 2), ("read", -1), ("seek", 0), ("seek", 4), ("eof",), ("tell",), ("size",),
            ("flush",)]


class TextRunner(hist.Runner):
    """ASCII text streams: characters are bytes, so the same model applies"""

    def open(self):
        c = self.cfg
        return self.rsfile.rsopen(self.path, c.mode, buffering=c.buffering, locking=False, thread_safe=c.safe, encoding="ascii", newline="")

    def op(self, step, op):
        e, d = hist.Runner.op(self, step, op)
        st = self.st
        if op[0] == "write":
            data = hist.payload(step, op[1]).decode()
            return e, lambda: st.write(data)
        if op[0] == "read":
            return e, lambda: st.read(op[1]).encode()
        return e, d

    def step(self, i, op):
        # a read can stop short of nothing on text streams; writes after reads follow the position in the model only after a seek
        return hist.Runner.step(self, i, op)


def bounds(ctx):
    return {c.name: {"mode": c.mode, "alphabet": len(a), "depth": d} for c, a, d, h in configs(ctx.quick)}


def prepare(ctx):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()


def text_configs(quick):
    d = 3 if quick else 4
    return [(Config("text-%s-b%d%s" % (m, b, "-safe" if s else ""), m, b, safe=s, initial=b"ab\ncdefgh"), d)
            for m in ("RWT", "WT", "RT", "AT") for b in (-1, 3) for s in (False, True)] + \
        [(Config("text-far%d-%s-b%d" % (base, m, b), m, b, initial=b"ab\ncdefgh", base=base), 3)
         for base in hist.FAR for m, b in (("RWT", -1), ("RWT", 3), ("AT", 3))]


def run_text(ctx, c, d, first):
    import itertools
    r = TextRunner(ctx, rsfile, c)
    states = set()
    for tail in itertools.product(TEXT_OPS, repeat=d - len(first)):
        h = tuple(first) + tail
        if bad_text(h) or c.base and ("truncate", -1) in h:
            continue
        res = r.run(h)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", len(h))
        if res:
            i, p = res
            h = h[:i + 1]
            ctx.violation("%s:%s" % (c.name, h[i][0] if i < len(h) else "end"), "config %s: after %s: %s" % (c.name, hist.fmt(h), p),
                          {"config": c.name, "history": [list(o) for o in h]})
        else:
            states.add((bytes(r.model.data), r.model.pos))
    r.done()
    ctx.stats.add("states", len(states))
    ctx.stats.add("nontrivial", len(states))


def bad_text(h):
    """Like those of the standard library, text streams require a seek between reading and writing, and keep the characters
    already decoded until the next seek: histories that read on after truncating are left out."""
    reading = stale = False
    for op in h:
        if op[0] == "read":
            if stale:
                return True
            reading = True
        elif op[0] in ("seek", "eof"):
            reading = stale = False
        elif op[0] == "write" and reading:
            return True
        elif op[0] == "truncate" and reading:
            stale = True
    return False


def run(ctx):
    cs = {c.name: (c, a, d, h) for c, a, d, h in configs(ctx.quick)}
    ts = {c.name: (c, d) for c, d in text_configs(ctx.quick)}
    jobs = [(n, (op,)) for n, (c, a, d, h) in cs.items() for op in a if hist.applicable(c, op)]
    jobs += [(n, (op,)) for n in ts for op in TEXT_OPS]

    def job(ctx, j):
        if j[0] in ts:
            c, d = ts[j[0]]
            return run_text(ctx, c, d, j[1])
        c, a, d, h = cs[j[0]]
        envs.set_hook(h)
        try:
            hist.explore(ctx, rsfile, c, a, d, first=j[1])
        finally:
            envs.set_hook(None)
    ctx.parallel(jobs, job)
    ctx.sample("RWB-b3: " + hist.fmt(OPS[10:13] + OPS[:1]))


def replay(ctx, data):
    r = data["replay"]
    h = tuple(tuple(o) for o in r["history"])
    for c, a, d, hook in configs(True):
        if c.name == r["config"]:
            envs.set_hook(hook)
            hist.explore(ctx, rsfile, c, a, len(h), first=h)
            envs.set_hook(None)
    for c, d in text_configs(True):
        if c.name == r["config"]:
            run_text(ctx, c, len(h), h)
