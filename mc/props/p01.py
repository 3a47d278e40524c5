"""P01: byte-range lock conflict rule. All lock/unlock/close histories up to a depth, outcomes against a lock table."""
from .. import core, idnum, lockworld as lw
from ..lockworld import spec

LEVEL = "model_checking"
RULE = ("depth-first enumeration of every operation sequence over the listed alphabets, each executed on fresh real streams; "
        "a state counts once per world (open streams, lock table, foreign locks, with-block depths); "
        "then all schedules of concurrent lock scenarios with a bounded number of deviations")
ASSUMPTIONS = ["Linux record-lock semantics; another process is played by an open-file-description lock owner",
               "non-blocking requests (timeout=0) decide the conflict rule; blocking ones are P03/P04"]

BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62]


def mk(handles, ranges, extra=(), unlock=None, shareds=(False, True)):
    ops = []
    for (a, n) in ranges:
        for h in handles:
            for sh in shareds:
                ops.append(("lock", h, a, n, sh))
    for (a, n) in (unlock or ranges):
        for h in handles:
            ops.append(("unlock", h, a, n))
    return ops + list(extra)


def worlds(quick):
    w = {}
    # two handles on one file and a foreign process
    w["pair+foreign"] = ([spec(), spec(path="A2")], mk([0, 1], [(0, 2), (1, 2), (0, None)], [
        ("flock", 1, 1, False), ("flock", 1, 1, True), ("funlock", 0, None)]), 4 if quick else 5)
    w["three"] = ([spec(), spec(path="AS"), spec(path="A2")], mk([0, 1, 2], [(0, 2), (1, 0)], [("close", 1)]), 4 if quick else 5)
    # access rights; two different files
    w["access"] = ([spec(mode="RB"), spec(mode="WB"), spec(mode="RAB"), spec(path="B")],
                   mk([0, 1, 2, 3], [(0, 2)], [("lockdef", 0, 1, 1, None), ("lockdef", 1, 1, 1, None), ("lockdef", 2, 1, 1, None)]),
                   4 if quick else 5)
    # streams sharing or duplicating one descriptor, closing and reopening
    w["wrap"] = ([spec(), spec(kind="dup", of=0), spec(kind="same", of=0, closefd=False)],
                 mk([0, 1, 2], [(0, 2), (1, 2)], [("close", 1), ("open", 1), ("close", 0), ("open", 0)], shareds=(False, True)),
                 3 if quick else 4)
    # every layer, relative offsets, with-blocks
    for layer in ("raw", "buf", "safe", "text"):
        ext = [("lockw", h, a, n, sh, wh) for h in (0, 1) for (a, n) in ((1, 2), (4, 0)) for sh in (False, True) for wh in (1, 2)]
        ext += [("enter", 0, 1, 2, False), ("exit", 0), ("exitexc", 0), ("unlock", 0, 1, 2), ("unlock", 1, 4, None)]
        ext += [("lock", 1, 2, 2, False)]
        w["rel-" + layer] = ([spec(layer=layer), spec(layer="raw")], ext, 3 if quick else 4)
    # refused arguments change nothing
    bad = [("bad", 0, i) for i in range(len(lw.BAD_CALLS))] + [("badu", 0, i) for i in range(len(lw.BAD_UNLOCKS))]
    w["bad"] = ([spec(), spec()], bad + [("lock", 0, 0, 2, False), ("lock", 1, 0, None, False), ("unlock", 0, 0, 2),
                                         ("unlock", 1, 0, 0)], 3)
    # a wide universe of ranges, two locks and one unlock
    rs = [(a, n) for a in (0, 1, 2, 3) for n in (1, 2, None)] + [(0, 3), (1, 0), (0, 2 ** 31), (0, 2 ** 32 + 1), (0, 2 ** 62)]
    rs += [(b, n) for b in BIG for n in (1, None)]
    w["universe"] = ([spec(), spec()], [("lock", h, a, n, sh) for (a, n) in rs for h in (0, 1) for sh in (False, True)] +
                     [("unlock", h, a, n) for (a, n) in rs for h in (0, 1)], 2)
    return w


def many():
    """(streams, alphabet, operations after each prefix, prefixes): many streams and locks on one file"""
    n = 7
    specs = [spec(path=("A", "A2", "AS")[i % 3]) for i in range(n)]
    alpha = []
    for h in range(n):
        alpha += [("unlock", h, 2 * h, 2), ("unlock", h, h, 4), ("close", h), ("open", h), ("lock", h, 2 * h, 2, False), ("lock", h, h, 4, True)]
    alpha += [("lock", 0, 0, None, True), ("unlock", 0, 0, None), ("lock", 3, 0, None, False), ("unlock", 3, 0, None), ("flock", 5, 1, False),
              ("funlock", 0, None)]
    apart = [("lock", h, 2 * h, 2, False) for h in range(n)]
    over = [("lock", h, h, 4, True) for h in range(n)]
    shut = [("close", h) for h in range(1, n)]
    prefixes = [apart, over, apart[:1] + shut, over[2:3] + [("close", h) for h in range(n) if h != 2],
                apart + shut, over + shut[::-1], apart + shut[:3] + [("open", h) for h in (1, 2, 3)],
                over + [("close", h) for h in (0, 2, 4, 6)], apart[:1] + [op for h in range(1, 5) for op in (("close", h), ("open", h), ("close", h))]]
    return specs, alpha, 2, prefixes


def bounds(ctx):
    return {"many": {"streams": len(many()[0]), "alphabet": len(many()[1]), "prefixes": len(many()[3]), "operations after each": many()[2]}} | {k: {"alphabet": len(a), "depth": d} for k, (s, a, d) in worlds(ctx.quick).items()}


ONLY = ("conflicting",)


def prepare(ctx):
    pass


def sequential(ctx):
    global rsfile
    rsfile = core.import_rsfile()


def jobs_of(ws):
    jobs = []
    for name, (specs, alpha, depth) in ws.items():
        jobs.append((name, None))
        for op in alpha:
            if depth >= 4:
                jobs.extend((name, [op, op2]) for op2 in alpha)
            else:
                jobs.append((name, [op]))
    return jobs


def run(ctx, oracles=("outcome",), worlds_fn=None, only=ONLY):
    from . import p03
    ctx.phase(lambda c: run_sequential(c, oracles, worlds_fn))
    if not ctx.violations and only == ONLY:
        ctx.phase(idnum.run)
    if not ctx.violations:
        ctx.phase(lambda c: p03.run_part(c, c.pid, only))


def run_sequential(ctx, oracles, worlds_fn):
    sequential(ctx)
    ws = (worlds_fn or worlds)(ctx.quick)

    def job(c, j):
        name, first = j
        if name == "many":
            specs, alpha, depth, prefixes = many()
            prefix = prefixes[first[0]]
            if first[1] is None:
                return lw.explore(c, rsfile, name, specs, alpha, len(prefix), oracles, first=prefix, check_all=True)
            return lw.explore(c, rsfile, name, specs, alpha, len(prefix) + depth, oracles, first=prefix + [first[1]])
        specs, alpha, depth = ws[name]
        if first is None:
            # short histories: length 0..(prefix length)
            lw.explore(c, rsfile, name, specs, alpha, 2 if depth >= 4 else 1, oracles)
        else:
            lw.explore(c, rsfile, name, specs, alpha, depth, oracles, first=first)
    specs, alpha, depth, prefixes = many()
    ctx.parallel(jobs_of(ws) + [("many", (k, op)) for k in range(len(prefixes)) for op in [None] + alpha], job)
    ctx.sample("world %s depth %d over: %s" % (k_first(ws), ws[k_first(ws)][2], lw.fmt(ws[k_first(ws)][1])[:600]))


def k_first(ws):
    return next(iter(ws))


def replay(ctx, data, oracles=("outcome",), worlds_fn=None):
    r = data["replay"]
    if "numbers" in r:
        return idnum.replay(ctx, r)
    if "scenario" in r:
        from . import p03
        p03.prepare(ctx)
        return p03.replay(ctx, data)
    sequential(ctx)
    specs, alpha = many()[:2] if r["world"] == "many" else (worlds_fn or worlds)(True)[r["world"]][:2]
    hist = [tuple(op) for op in r["history"]]
    lw.explore(ctx, rsfile, r["world"], specs, alpha, len(hist), oracles, first=hist, check_all=True)
