"""P04: timeouts on a virtual clock: every point of a grid of timeouts, delays, release instants, clock jumps; options histories."""
import itertools
import os

from .. import conc, core, envs, sched
from ..conc import st

LEVEL = "model_checking"
RULE = ("every point of the product of the listed domains, each executed with real threads on a virtual clock in every order of simultaneous "
        "events; then every sequence of option calls up to a depth against a dictionary")
ASSUMPTIONS = ["code takes no time on the virtual clock, only sleeping and waiting do", "a lock request polls or waits through time.sleep, "
               "threading conditions or fcntl"]

NEVER = 10_000.0
EPS = 1e-6


def domains(quick):
    d = dict(
        timeout=[0, 0.25, 0.5, 1.0, 1.125, 3.0, 1, None],
        spin=[0.125, 0.5, 2.0],
        enforced=[None, 0.5, 1.0, 2.5],
        release=[0.0, 0.0625, 0.3, 0.4375, 0.5, 0.75, 0.95, 1.0, 1.3, 2.9, NEVER],
        holder=["local", "foreign", "local-foreign", "foreign-local", "two-foreign", "same-fd-shared"],
        jump=[None, (0.1, 1e6), (0.1, -1e6), (0.6, 1e6), (0.6, -1e6)],
        how=["raw", "safe", "text", "open"],
    )
    return d


def grid(quick):
    d = domains(quick)
    pts = []
    for T, s, e, r, h in itertools.product(d["timeout"], d["spin"], d["enforced"], d["release"], d["holder"]):
        if r == NEVER and T is None and e is None:
            continue               # blocking forever: P03
        pts.append(dict(timeout=T, spin=s, enforced=e, release=r, holder=h, jump=None, how="raw"))
    for T, s, e, r, h, j in itertools.product(d["timeout"], [0.125] if quick else d["spin"], [None, 1.0], [0.3, 0.75, 1.3, NEVER],
                                              ["local", "foreign"], d["jump"][1:]):
        if r == NEVER and T is None and e is None:
            continue
        pts.append(dict(timeout=T, spin=s, enforced=e, release=r, holder=h, jump=j, how="raw"))
    for T, e, r, h, w in itertools.product(d["timeout"], [None, 1.0], [0.3, 1.3, NEVER], ["local", "foreign"], d["how"][1:]):
        if r == NEVER and T is None and e is None:
            continue
        pts.append(dict(timeout=T, spin=0.125, enforced=e, release=r, holder=h, jump=None, how=w))
    # long ones
    for T, s, e, r, h, w in itertools.product([61.0, 61, 3700.0, 8000.0, None], [20.0, 1000.0], [None, 70.0, 5000.0], [30.0, 60.5, 69.0, 3650.0, NEVER],
                                              ["local", "foreign"], ["raw", "open"]):
        if r == NEVER and T is None and e is None:
            continue
        pts.append(dict(timeout=T, spin=s, enforced=e, release=r, holder=h, jump=None, how=w))
    return pts


def prepare(ctx):
    global rsfile
    sched.install()
    rsfile = core.import_rsfile()
    ctx.pin = True


def bounds(ctx):
    return {"grid points": len(grid(ctx.quick)), "option sequences depth": 4 if ctx.quick else 5}


class Run:
    """One grid point: T0 requests 'exclusive (2, 4)', others hold something conflicting until the release instant(s)."""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.outcome = None
        self.problem = None

    def make(self):
        p = self.p
        rsfile.set_rsfile_options(default_spinlock_delay=p["spin"], enforced_locking_timeout_value=p["enforced"])
        sc = dict(name="t", streams=[st(layer="raw" if p["how"] == "open" else p["how"], mode="RW" if p["how"] == "text" else "RWB",
                                        opened=p["how"] != "open"), st()], threads=[])
        self.w = w = conc.World(self.ctx, rsfile, sc, probe=False)
        w.check_held = lambda: None
        rsfile.set_rsfile_options(default_spinlock_delay=9.75, enforced_locking_timeout_value=None)   # existing streams are not concerned
        if p["how"] == "open":
            rsfile.set_rsfile_options(default_spinlock_delay=p["spin"], enforced_locking_timeout_value=p["enforced"])
        sched.Clock.now = 1000.0
        sched.Clock.wall = 5_000_000.0
        r, h = p["release"], p["holder"]
        fo = w.foreign["a"]
        self.free_at = r
        bodies = [self.waiter]
        if h in ("local", "same-fd-shared"):
            w.streams[1].lock_file(timeout=0, length=3, offset=3, shared=h != "local")
            bodies.append(self.at(r, lambda: w.streams[1].unlock_file(length=3, offset=3)))
        elif h == "foreign":
            fo.lock(3, 6, True)
            bodies.append(self.at(r, lambda: (fo.unlock(), sched.ENGINE.kernel_changed())))
        elif h == "two-foreign":
            fo.lock(3, 6, False)
            fo.lock(2, 3, True)
            bodies.append(self.at(r, lambda: (fo.unlock(2, 3), sched.ENGINE.kernel_changed())))
            bodies.append(self.at(r / 2, lambda: (fo.unlock(3, 6), sched.ENGINE.kernel_changed())))
        elif h == "local-foreign":      # the local holder leaves first
            w.streams[1].lock_file(timeout=0, length=1, offset=3)
            fo.lock(4, 6, False)
            bodies.append(self.at(r / 2, lambda: w.streams[1].unlock_file(length=1, offset=3)))
            bodies.append(self.at(r, lambda: (fo.unlock(), sched.ENGINE.kernel_changed())))
        elif h == "foreign-local":
            w.streams[1].lock_file(timeout=0, length=1, offset=3)
            fo.lock(4, 6, False)
            bodies.append(self.at(r, lambda: w.streams[1].unlock_file(length=1, offset=3)))
            bodies.append(self.at(r / 2, lambda: (fo.unlock(), sched.ENGINE.kernel_changed())))
        if p["jump"]:
            t, j = p["jump"]
            bodies.append(self.at(t, lambda: setattr(sched.Clock, "wall", sched.Clock.wall + j)))
        return bodies, self.check, ["waiter", "h1", "h2", "jump"][:len(bodies)]

    def at(self, t, fn):
        def body():
            if t >= NEVER / 2:
                return
            if t > 0:
                sched.v_sleep(t)
            fn()
        return body

    def waiter(self):
        w, p = self.w, self.p
        t0 = sched.Clock.now
        try:
            if p["how"] == "open":
                w.streams[0] = rsfile.rsopen(w.paths["a"], "RWB", buffering=0, locking=True, timeout=p["timeout"])
            else:
                kw = {} if p["timeout"] is None else {"timeout": p["timeout"]}
                w.streams[0].lock_file(length=4, offset=2, shared=False, **kw)
            self.outcome = ("granted", sched.Clock.now - t0)
        except rsfile.LockingException:
            self.outcome = ("LockingException", sched.Clock.now - t0)
        except RuntimeError:
            self.outcome = ("RuntimeError", sched.Clock.now - t0)

    def judge(self):
        p = self.p
        T, s, e, r = p["timeout"], p["spin"], p["enforced"], self.free_at
        if self.outcome is None:
            return "no outcome"
        what, t = self.outcome
        limit = T if T is not None else e
        fail = "LockingException" if T is not None else "RuntimeError"
        if what == "granted":
            if t < r - EPS:
                return "granted after %g s though the range was taken until %g s" % (t, r)
            late = r + s if (T is not None or e is not None) else r
            if t > late + EPS:
                return "granted only after %g s though the range was free at %g s (spin delay %g)" % (t, r, s)
            if limit is not None and t > limit + s + EPS:
                return "granted after %g s with a timeout of %g s" % (t, limit)
        else:
            if what != fail or limit is None:
                return "%s raised (timeout %r, enforced %r)" % (what, T, e)
            if t < limit - EPS:
                return "%s already after %g s, timeout is %g s" % (what, t, limit)
            if (t > limit + s + EPS) or (limit == 0 and t > 0):
                return "%s only after %g s, timeout is %g s, spin delay %g s" % (what, t, limit, s)
            if r < limit - EPS and True:
                return "%s though the range was free at %g s, timeout is %g s" % (what, r, limit)
        return None

    def check(self, x):
        w = self.w
        problem = None
        for t in x.threads:
            if t.error is not None and not x.failure:
                problem = problem or "thread %s: %r" % (t.name, t.error)
            t.error = None
        if not problem and not x.failure:
            problem = self.judge()
        if not problem and not x.failure and self.outcome[0] != "granted":
            # nothing left behind by the failed request: release the holders and look
            try:
                w.streams[1].unlock_file(length=3, offset=3)
            except RuntimeError:
                pass
            try:
                w.streams[1].unlock_file(length=1, offset=3)
            except RuntimeError:
                pass
            w.foreign["a"].unlock()
            if w.foreign["a"].seen(0, None):
                problem = "a failed request left a lock visible to other processes"
            else:
                try:
                    w.streams[1].lock_file(timeout=0)
                    w.streams[1].unlock_file()
                except Exception as e:
                    problem = "a failed request left a lock behind: %r" % e
        rsfile.set_rsfile_options(default_spinlock_delay=0.125, enforced_locking_timeout_value=None)
        self.ctx.outcome((self.outcome and self.outcome[0], self.p["holder"], self.p["how"]))
        p2 = w.finish(x)
        return problem or p2


def run_points(ctx, pts):
    for p in pts:
        r = Run(ctx, p)

        def on_done(x, problem, choices):
            ctx.violation("timing:%s" % (r.outcome[0] if r.outcome else "none"), "%s: %s" % (
                ", ".join("%s=%r" % kv for kv in p.items()), problem), {"point": p, "choices": choices})

        def make():
            r.outcome = None
            return r.make()
        sched.explore(ctx, make, 0, on_done=on_done, max_clock=400.0 if p["spin"] <= 2 else 15000.0)


# -- options -----------------------------------------------------------------------------------------------------------

OPTS = [("set", {"default_spinlock_delay": 0.5}), ("set", {"enforced_locking_timeout_value": 1.0}),
        ("set", {"enforced_locking_timeout_value": None, "default_spinlock_delay": 0.125}),
        ("bad", {"default_spinlock_delay": 3.0, "nope": 1}), ("bad", {"nope": 2}), ("bad", {"aaa": 0, "enforced_locking_timeout_value": 9.0}),
        ("set", {}), ("poke",), ("open",), ("lock",)]


def run_options(ctx, seq):
    model = {"enforced_locking_timeout_value": None, "default_spinlock_delay": 0.125}
    rsfile.set_rsfile_options(**model)
    path = os.path.join(ctx.scratch, "opt")
    with open(path, "wb") as f:
        f.write(b"x" * 8)
    fo = conc.Foreign(path)
    fo.lock(0, None, False)
    stream, at_open = rsfile.rsopen(path, "RWB", buffering=0, locking=False, thread_safe=False), dict(model)
    problem = None
    try:
        for i, op in enumerate(seq):
            if op[0] == "set":
                rsfile.set_rsfile_options(**op[1])
                model.update(op[1])
            elif op[0] == "bad":
                try:
                    rsfile.set_rsfile_options(**op[1])
                    problem = "unknown option accepted"
                except ValueError:
                    pass
            elif op[0] == "poke":
                d = rsfile.get_rsfile_options()
                d["default_spinlock_delay"] = 77
                d["enforced_locking_timeout_value"] = 77
                d["new"] = 1
            elif op[0] == "open":
                stream.close()
                stream, at_open = rsfile.rsopen(path, "RWB", buffering=0, locking=False, thread_safe=False), dict(model)
            elif op[0] == "lock":
                def body():
                    t0 = sched.Clock.now
                    try:
                        stream.lock_file(timeout=0.75)
                        body.out = "granted"
                    except rsfile.LockingException:
                        body.out = sched.Clock.now - t0
                    t0 = sched.Clock.now
                    if at_open["enforced_locking_timeout_value"] is not None:
                        try:
                            stream.lock_file()
                            body.out2 = "granted"
                        except RuntimeError:
                            body.out2 = sched.Clock.now - t0
                body.out = body.out2 = None
                sched.Clock.now = 1000.0
                x = sched.Execution([body], [], bound=0, max_clock=300).run()
                s, e = at_open["default_spinlock_delay"], at_open["enforced_locking_timeout_value"]
                # with spin delay s and code taking no time, attempts happen at multiples of s
                want = next(k * s for k in range(100) if k * s >= 0.75)
                want2 = None if e is None else next(k * s for k in range(100) if k * s >= e)
                err = x.threads[0].error or x.failure
                if err:
                    problem = "lock request: %r" % (err,)
                elif not (0.75 - EPS <= body.out <= 0.75 + s + EPS):
                    problem = "timed request ended after %r s (spin delay at opening %r)" % (body.out, s)
                elif e is not None and not (isinstance(body.out2, float) and e - EPS <= body.out2 <= e + s + EPS):
                    problem = "enforced timeout %r at opening, blocking request ended after %r" % (e, body.out2)
            if problem is None and rsfile.get_rsfile_options() != model:
                problem = "options are %r instead of %r" % (rsfile.get_rsfile_options(), model)
            if problem:
                return i, problem
        return None
    finally:
        stream.close()
        fo.close()
        rsfile.set_rsfile_options(enforced_locking_timeout_value=None, default_spinlock_delay=0.125)


def explore_options(ctx, first, depth):
    for tail in itertools.product(range(len(OPTS)), repeat=depth - len(first)):
        seq = [OPTS[i] for i in tuple(first) + tail]
        res = run_options(ctx, seq)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", depth)
        if res:
            i, problem = res
            ctx.violation("options:%s" % seq[i][0], "after %r: %s" % (seq[:i + 1], problem),
                          {"options": list(tuple(first) + tail)[:i + 1]})
            return


def run(ctx):
    pts = grid(ctx.quick)
    jobs = [("grid", i) for i in range(32)] + [("opt", i) for i in range(len(OPTS))]

    def job(c, j):
        if j[0] == "grid":
            run_points(c, pts[j[1]::32])
        else:
            explore_options(c, [j[1]], 4 if c.quick else 5)
    ctx.parallel(jobs, job)
    for p in pts[:3]:
        ctx.sample(repr(p))


def replay(ctx, data):
    r = data["replay"]
    if "options" in r:
        explore_options(ctx, r["options"], len(r["options"]))
    else:
        p = dict(r["point"])
        p["jump"] = tuple(p["jump"]) if p["jump"] else None
        run_points(ctx, [p])
