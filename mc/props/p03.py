"""P03: blocked lock requests end; no deadlock, no lost wakeup, mutual exclusion. All interleavings up to a preemption bound."""
from .. import conc, core, sched
from ..conc import st

LEVEL = "model_checking"
RULE = ("depth-first enumeration of all schedules of the real threads with at most the stated number of deviations from run-to-completion "
        "(a preemption, or a timer firing early); scheduling points: mutex, condition and system-call operations, or every source line of rsfile")
ASSUMPTIONS = ["CPython threads interleave at the listed scheduling points", "a blocking fcntl request is granted as soon as the kernel's lock table allows it",
               "another process is played by an open-file-description lock owner"]


def mark(w):
    w.marked = True


def gate(w):
    e = sched.ENGINE
    e.block(e.me(), lambda: getattr(w, "marked", False))


def closer(w):
    gate(w)
    w.step(("close", 0))


def scenarios():
    S = []

    def sc(name, threads, streams, deep=2, line=1, files=("a",)):
        S.append(dict(name=name, threads=threads, streams=streams, deep=deep, line=line, files=files))
    A, B, C = 0, 1, 2
    two = [st(), st()]
    three = [st(), st(), st()]
    L, U, W = "lock", "unlock", "with"
    sc("lock-unlock", [[(L, 0, 0, 2, False), (U, 0, 0, 2)], [(L, 1, 1, 2, False), (U, 1, 1, 2)]], two, 3, 2)
    sc("lock-close", [[(L, 0, 0, None, False), ("close", 0)], [(L, 1, 1, 2, False), ("close", 1)]], two, 3, 2)
    sc("lock-drop", [[(L, 0, 0, None, False), ("drop", 0)], [(L, 1, 1, 2, False), ("drop", 1)]], two, 3, 1)
    sc("with-exc", [[(W, 0, 0, None, False, "exc")], [(W, 1, 0, None, False, "ok")]], two, 3, 2)
    sc("shared-excl", [[(L, 0, 0, 4, True), (U, 0, 0, 4)], [(L, 1, 1, 1, True), (U, 1, 1, 1)], [(L, 2, 0, 2, False), (U, 2, 0, 2)]], three, 2, 1)
    sc("two-waiters", [[(L, 0, 0, None, False), (U, 0, 0, None)], [(W, 1, 0, 2, False, "ok")], [(W, 2, 1, 2, False, "ok")]], three, 2, 1)
    sc("two-waiters-close", [[(L, 0, 0, None, False), ("close", 0)], [(L, 1, 0, 2, False), ("close", 1)], [(L, 2, 1, 2, False), ("close", 2)]],
       three, 2, 1)
    sc("two-ranges", [[(L, 0, 0, 2, False), (L, 0, 4, 2, False), (U, 0, 0, 2), (U, 0, 4, 2)], [(W, 1, 4, 2, False, "ok"), (W, 1, 0, 2, False, "ok")]],
       two, 2, 1)
    sc("foreign", [[("flock", 0, 2, False), ("funlock",)], [(L, 0, 1, 2, False), (U, 0, 1, 2)]], [st()], 3, 2)
    sc("foreign-shared", [[("flock", 0, 2, True), ("funlock",)], [(W, 0, 1, 2, True, "ok")], [(L, 1, 0, 1, False), ("close", 1)]], two, 2, 1)
    sc("foreign-local", [[("flock", 0, 2, False), ("funlock",)], [(L, 0, 1, 2, False), (U, 0, 1, 2)], [(L, 1, 2, 2, False), ("close", 1)]],
       two, 2, 1)
    sc("try", [[(L, 0, 0, 2, False), (U, 0, 0, 2)], [("try", 1, 1, 2, False), (L, 1, 1, 2, False), (U, 1, 1, 2)]], two, 2, 1)
    sc("try-shared", [[(L, 0, 0, 2, True), (U, 0, 0, 2)], [("try", 1, 1, 2, False)], [("try", 2, 0, 2, True), (L, 2, 0, 1, True), ("close", 2)]],
       three, 2, 1)
    sc("reopen", [[(L, 0, 0, None, False), ("close", 0), ("open", 2), (L, 2, 0, 1, False), ("close", 2)],
                  [(L, 1, 0, None, False), ("close", 1)]], [st(), st(), st(opened=False)], 2, 1)
    sc("open-locking", [[("open", 0), ("close", 0)], [("open", 1), ("close", 1)]],
       [st(opened=False, locking=True), st(opened=False, locking=True, mode="RB")], 2, 1)
    sc("open-default", [[("open", 0), ("close", 0)], [("open", 1), ("close", 1)]],
       [st(opened=False, locking=True, layer="safe"), st(opened=False, locking=True, layer="text", mode="RW")], 2, 1)
    sc("close-unlocked", [[("close", 0)], [(L, 1, 0, None, False), (U, 1, 0, None), ("close", 1)], [(W, 2, 0, 2, False, "ok")]], three, 2, 1)
    sc("close-by-other", [[(L, 0, 0, None, False), ("call", mark)], [(L, 1, 0, 2, False), ("close", 1)], [("call", closer)]], two, 2, 1)
    sc("dup", [[(L, 0, 0, 2, False), ("close", 0)], [(L, 1, 1, 2, False), ("close", 1)]], [st(), st(kind="dup", of=0)], 2, 1)
    sc("two-files", [[(L, 0, 0, None, False), (L, 1, 0, None, False), ("close", 0), ("close", 1)],
                     [(L, 2, 0, None, False), (L, 3, 0, None, False), ("close", 3), ("close", 2)]],
       [st(path="a"), st(path="b"), st(path="a"), st(path="b")], 2, 1, files=("a", "b"))
    sc("adjacent", [[(L, 0, 0, 2, False), (U, 0, 0, 2)], [(L, 1, 2, 2, False), (U, 1, 2, 2)], [(L, 2, 1, 2, True), (U, 2, 1, 2)]], three, 2, 1)
    sc("timed", [[(L, 0, 0, 2, False), ("sleep", 1.0), (U, 0, 0, 2)], [(L, 1, 1, 2, False, 100), (U, 1, 1, 2)], [(L, 2, 0, 4, True), ("close", 2)]],
       three, 2, 1)
    sc("buffered", [[(L, 0, 0, 2, False), ("write", 0, b"ab"), (U, 0, 0, 2)], [(W, 1, 0, 4, False, "exc"), ("close", 1)]],
       [st(layer="buf"), st(layer="safe")], 2, 1)
    # the last waiter's entry must survive concurrent clean-up of the table
    sc("entry-deletion", [[("close", 0)], [("close", 1)], [(L, 2, 0, None, False), ("close", 2)]], three, 2, 1)
    sc("entry-deletion-2", [[(L, 0, 0, 1, False), ("close", 0)], [("open", 1), (L, 1, 0, 1, False), ("close", 1)]],
       [st(), st(opened=False)], 3, 2)
    # waiters which keep what they got: nobody else will awake the others (the first thread gets its locks before them)
    M, G = ("call", mark), ("call", gate)
    sc("keep-unlock", [[(L, 0, 0, None, False), M, (U, 0, 0, None)], [G, (L, 1, 0, 2, False)], [G, (L, 2, 2, 2, False)]], three, 2, 1)
    sc("keep-close", [[(L, 0, 0, None, False), M, ("close", 0)], [G, (L, 1, 0, 2, False)], [G, (L, 2, 2, 2, False)]], three, 2, 1)
    sc("keep-readers", [[(L, 0, 0, 4, False), M, (U, 0, 0, 4)], [G, (L, 1, 0, 4, True)], [G, (L, 2, 1, None, True)]], three, 2, 1)
    sc("keep-failed", [[("flock", 0, 1, False), M, ("try", 0, 0, 6, False)], [G, (L, 1, 2, 2, False)], [G, (L, 2, 4, 2, False)]], three, 2, 1)
    sc("keep-two", [[(L, 0, 0, 2, False), (L, 0, 4, 2, False), M, (U, 0, 4, 2), ("close", 0)], [G, (L, 1, 0, 2, False)],
                    [G, (L, 2, 4, 2, False)]], three, 2, 1)
    sc("keep-four", [[(L, 0, 0, None, False), M, ("close", 0)], [G, (L, 1, 0, 2, False)], [G, (L, 2, 2, 2, False)],
                     [G, (L, 3, 4, 2, True)]], three + [st()], 1, 1)
    return S


def prepare(ctx):
    global rsfile, LINES
    sched.install()
    rsfile = core.import_rsfile()
    LINES = (core.SRC + "/rsfile/",)
    ctx.pin = True


def plan(ctx):
    jobs = []
    extra = 0 if ctx.quick else 1
    for sc in scenarios():
        jobs += [(sc["name"], "sync", sc["deep"] + extra, k, 4) for k in range(4)]
        jobs += [(sc["name"], "line", sc["line"] + extra, k, n) for n in [8 if sc["line"] + extra < 2 else 48] for k in range(n)]
    jobs.sort(key=lambda j: -j[2])
    return jobs


def bounds(ctx):
    return {sc["name"]: {"deviations at synchronization points": sc["deep"] + (0 if ctx.quick else 1),
                         "deviations at source lines": sc["line"] + (0 if ctx.quick else 1)} for sc in scenarios()}


def run(ctx, pid="P03", only=None, jobs=None):
    by = {s["name"]: s for s in scenarios()}

    def job(c, j):
        name, kind, bound, k, n = j
        sc = by[name]
        conc.run_scenario(c, rsfile, sc, bound, (k, n), pid + ":" + name, LINES if kind == "line" else (), skip=c.quick and bound > 1,
                          only=only)
        c.outcome((name, kind, k))
    ctx.parallel(jobs or plan(ctx), job)
    ctx.sample("schedules of scenario lock-close: T0: lock(0..inf) close | T1: lock(1,2) close")


def run_part(ctx, pid, only):
    """the same scenarios judged for another property (in a phase of its own)"""
    prepare(ctx)
    extra = 0 if ctx.quick else 1
    jobs = []
    for sc in scenarios():
        jobs += [(sc["name"], "sync", min(2, sc["deep"]) + extra, k, 4) for k in range(4)]
        if not ctx.quick:
            jobs += [(sc["name"], "line", 1, k, 8) for k in range(8)]
    jobs.sort(key=lambda j: -j[2])
    run(ctx, pid, only, jobs)


def replay(ctx, data, only=None):
    r = data["replay"]
    sc = {s["name"]: s for s in scenarios()}[r["scenario"]]
    conc.run_scenario(ctx, rsfile, sc, r["bound"], (0, 1), "%s:%s" % (ctx.pid, sc["name"]), LINES if r["line"] else (), prefix=r["choices"], skip=r["skip"])
