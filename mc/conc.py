"""Concurrent lock scenarios: small programs for two or three controlled threads, each step monitored.

A scenario: dict(streams=[spec], threads=[[op, ...], ...], foreign=bool). Ops (s = stream number):
  ("open", s) ("close", s) ("drop", s)
  ("lock", s, start, length, shared[, timeout])     blocking unless a timeout is given; must be granted unless it has a timeout
  ("try", s, start, length, shared)                 timeout=0, either outcome
  ("unlock", s, start, length)
  ("with", s, start, length, shared, "ok"/"exc")    a with-block around one scheduling point
  ("flock", start, length, shared) ("funlock",)     another process (blocking request)
  ("point",) ("call", function(world))
Monitors: conflicting locks never held together; while held, every byte is locked for other processes in the right mode; blocking
requests end; nothing but the expected outcome; at the end no kernel lock, no extra descriptor, and everything can be locked again."""
import gc
import os

from . import core, envs, sched
from .klock import Foreign
from .lockworld import fdset

PROBE = 8


def st(path="a", mode="RWB", kind="path", of=None, layer="raw", opened=True, closefd=True, locking=False):
    return dict(path=path, mode=mode, kind=kind, of=of, layer=layer, opened=opened, closefd=closefd, locking=locking)


class Boom(Exception):
    pass


class World:
    def __init__(self, ctx, rsfile, sc, exact=False, probe=True):
        self.ctx, self.rsfile, self.sc = ctx, rsfile, sc
        self.exact = exact
        self.probe = probe
        self.problem = None
        self.dir = os.path.join(ctx.scratch, "w")
        os.makedirs(self.dir, exist_ok=True)
        self.paths = {}
        for n in sc.get("files", ("a",)):
            p = self.paths[n] = os.path.join(self.dir, n)
            fd = envs.R.open(p, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o600)
            envs.R.write(fd, b"x" * 12)
            envs.R.close(fd)
        self.foreign = {n: Foreign(p) for n, p in self.paths.items()}
        self.flocks = []
        self.inflight = []
        self.held = []             # [stream, file, start, end, shared]
        self.requests = []         # pending / finished requests, for 'try'
        self.streams = [None] * len(sc["streams"])
        self.fdbase = set(fdset())
        self.dups = []
        self.log = []
        for i, s in enumerate(sc["streams"]):
            if s["opened"]:
                self.open(i)

    def open(self, i):
        s = self.sc["streams"][i]
        kw = dict(locking=s["locking"])
        mode = s["mode"]
        if s["layer"] == "raw":
            kw.update(buffering=0, thread_safe=False)
        elif s["layer"] == "buf":
            kw.update(thread_safe=False)
        elif s["layer"] == "text":
            mode = mode.replace("B", "")
        if s["kind"] == "path":
            self.streams[i] = self.rsfile.rsopen(self.paths[s["path"]], mode, **kw)
        else:
            fd = envs.R.dup(self.streams[s["of"]].fileno())
            if not s["closefd"]:
                self.dups.append(fd)
            self.streams[i] = self.rsfile.rsopen(None, mode, fileno=fd, closefd=s["closefd"], **kw)

    def bad(self, text):
        if self.problem is None:
            self.problem = text
            e = sched.ENGINE
            if e is not None:
                e.failure = e.failure or text

    # -- monitors --------------------------------------------------------------------------------------------------
    @staticmethod
    def overlap(a, b, c, d):
        return (b is None or c < b) and (d is None or a < d) and (a != b) and (c != d)

    def granted(self, rec):
        i, f, a, b, sh = rec
        for (j, g, c, d, sh2) in self.held:
            if g == f and self.overlap(a, b, c, d) and not (sh and sh2 and j != i):
                self.bad("two conflicting locks held at once: %r and %r" % (rec, (j, g, c, d, sh2)))
        for (g, c, d, sh2) in self.flocks:
            if g == f and self.overlap(a, b, c, d) and not (sh and sh2):
                self.bad("lock %r granted while another process holds %r" % (rec, (c, d, sh2)))
        self.held.append(rec)
        self.check_held()

    def check_held(self):
        if not self.probe:
            return
        for (i, f, a, b, sh) in self.held:
            fo = self.foreign[f]
            for x in range(a, min(PROBE, PROBE if b is None else b)):
                mine = fo.seen(x, x + 1, shared_request=not sh)
                if (not sh and mine != "W") or (sh and not fo.seen(x, x + 1)):
                    self.bad("byte %d is under a held lock %r of this process but another process could lock it" % (x, (i, a, b, sh)))
                    return

    def release(self, i, key=None):
        self.held = [r for r in self.held if not (r[0] == i and (key is None or (r[2], r[3]) == key))]

    # -- program interpreter ----------------------------------------------------------------------------------------
    def body(self, prog):
        def run():
            for op in prog:
                self.step(op)
        return run

    def step(self, op):
        rec = None
        if op[0] in ("lock", "try", "unlock", "with"):
            rec = (self.sc["streams"][op[1]]["path"], op[2], op[2] + op[3] if op[3] else None)
        elif op[0] in ("open", "close", "drop"):
            rec = (self.sc["streams"][op[1]]["path"], 0, None)
        if rec:
            self.inflight.append(rec)
        self.step1(op)
        if rec:
            self.inflight.remove(rec)
            self.check_exact()

    def check_exact(self):
        """bytes locked by this process are under a held lock, or under a request / release going on"""
        if not self.probe:
            return
        for f, fo in self.foreign.items():
            cover = [(a, b) for (g, a, b) in self.inflight if g == f]
            mine = [(a, b, sh) for (i, g, a, b, sh) in self.held if g == f]
            for x in range(PROBE):
                if any(a <= x and (b is None or x < b) for a, b in cover):
                    continue
                kind = fo.seen(x, x + 1)
                want = ""
                for a, b, sh in mine:
                    if a <= x and (b is None or x < b):
                        want = "W" if not sh else (want or "R")
                if kind != want:
                    self.bad("byte %d of %s: other processes see %r, held locks say %r" % (x, f, kind, want))
                    return

    def step1(self, op):
        name = op[0]
        if name == "flock":
            _, start, length, shared = op[:4]
            f = op[4] if len(op) > 4 else "a"
            end = start + length if length else None
            e = sched.ENGINE
            e.point("flock")
            while True:
                v = e.kernel_version
                if self.foreign[f].lock(start, end, shared):
                    break
                e.block(e.me(), lambda: e.kernel_version != v)
            for (j, g, c, d, sh2) in self.held:
                if g == f and self.overlap(start, end, c, d) and not (shared and sh2):
                    self.bad("another process obtained %r while stream %d holds %r" % ((start, end, shared), j, (c, d, sh2)))
            self.flocks.append((f, start, end, shared))
            return
        if name == "funlock":
            e = sched.ENGINE
            e.point("funlock")
            for f in self.foreign.values():
                f.unlock()
            self.flocks = []
            e.kernel_changed()
            return
        if name == "point":
            sched.ENGINE.point("point")
            return
        if name == "sleep":
            sched.v_sleep(op[1])
            return
        if name == "call":
            op[1](self)
            return
        i = op[1]
        if name == "open":
            self.open(i)
            if self.sc["streams"][i]["locking"]:
                self.granted((i, self.sc["streams"][i]["path"], 0, None, "W" not in self.sc["streams"][i]["mode"] and "A" not in self.sc["streams"][i]["mode"]))
            return
        s = self.streams[i]
        f = self.sc["streams"][i]["path"]
        if name == "lock":
            _, _, start, length, shared = op[:5]
            end = start + length if length else None
            kw = {} if len(op) < 6 else {"timeout": op[5]}
            s.lock_file(length=length, offset=start, shared=shared, **kw)
            self.granted((i, f, start, end, shared))
        elif name == "try":
            _, _, start, length, shared = op
            end = start + length if length else None
            try:
                s.lock_file(timeout=0, length=length, offset=start, shared=shared)
            except self.rsfile.LockingException:
                return
            self.granted((i, f, start, end, shared))
            self.release(i, (start, end))
            s.unlock_file(length=length, offset=start)
        elif name == "unlock":
            _, _, start, length = op
            end = start + length if length else None
            self.check_held()
            self.release(i, (start, end))
            s.unlock_file(length=length, offset=start)
            self.check_held()
        elif name == "with":
            _, _, start, length, shared, how = op
            end = start + length if length else None
            boom = Boom()
            try:
                with s.lock_file(length=length, offset=start, shared=shared):
                    self.granted((i, f, start, end, shared))
                    sched.ENGINE.point("inside")
                    self.check_held()
                    self.release(i, (start, end))
                    if how == "exc":
                        raise boom
            except Boom as e:
                if e is not boom or how != "exc":
                    raise
            else:
                if how == "exc":
                    self.bad("exception swallowed by a lock block")
            self.check_held()
        elif name == "close":
            self.check_held()
            self.release(i)
            s.close()
            self.streams[i] = None
            self.check_held()
        elif name == "drop":
            self.check_held()
            self.release(i)
            self.streams[i] = None
            layer = self.sc["streams"][i]["layer"]
            del s
            if layer not in ("raw", "buf"):
                gc.collect()
            self.check_held()
        elif name == "tell":
            s.tell()
        elif name == "write":
            s.write(op[2])
        else:
            raise core.HarnessError(op)

    # -- end --------------------------------------------------------------------------------------------------------
    def finish(self, x):
        """returns a problem or None; always cleans up"""
        problem = self.problem
        for t in x.threads:
            if t.error is not None and problem is None and not x.failure:
                problem = "thread %s: %s: %s" % (t.name, type(t.error).__name__, t.error)
            t.error = None
        failed = problem or x.failure
        for i, s in enumerate(self.streams):
            if s is not None:
                try:
                    s.close()
                except Exception as e:
                    failed = failed or "closing stream %d at the end: %s: %s" % (i, type(e).__name__, e)
        self.streams = [None] * len(self.streams)
        if not failed:
            for n, fo in self.foreign.items():
                fo.unlock()
                if fo.seen(0, None):
                    failed = "file %s still locked for other processes after all streams were closed" % n
        if not failed:
            fds = set(fdset())
            if fds != self.fdbase | set(self.dups):
                failed = "descriptors after closing everything: %r extra, %r missing" % (
                    sorted(fds - self.fdbase - set(self.dups)), sorted((self.fdbase | set(self.dups)) - fds))
        if not failed:
            for n, p in self.paths.items():
                s = self.rsfile.rsopen(p, "RWB", buffering=0, locking=False, thread_safe=False)
                try:
                    s.lock_file(timeout=0)
                except Exception as e:
                    failed = "file %s cannot be locked again after everything was closed: %s: %s" % (n, type(e).__name__, e)
                s.close()
        for fd in self.dups:
            try:
                envs.R.close(fd)
            except OSError:
                pass
        for fo in self.foreign.values():
            fo.close()
        if failed:
            # leave nothing behind: leaked descriptors would change later executions
            for fd in set(fdset()) - self.fdbase:
                try:
                    envs.R.close(fd)
                except OSError:
                    pass
            for n in self.paths:      # another inode next time
                os.rename(self.paths[n], self.paths[n] + ".bad%d" % self.ctx.stats.get("executions", 0))
        return problem or failed


def run_scenario(ctx, rsfile, sc, bound, shard, key, line_files=(), cap=None, names=None, prefix=None, probe=True, opcodes=False, max_clock=3600.0, skip=False,
                 only=None):
    name = sc["name"]

    def make():
        w = World(ctx, rsfile, sc, probe=probe)
        return [w.body(p) for p in sc["threads"]], (lambda x: w.finish(x)), None

    def on_done(x, problem, choices):
        if only and classify(problem) not in only:
            ctx.stats.add("other_property_problems")
            return
        trace = ["%s@%s->%s" % l for l in x.labels if l[0] != l[2]]
        ctx.violation("%s:%s" % (key, classify(problem)), "scenario %s: %s   [switches: %s]" % (name, problem, ", ".join(trace)[:900]),
                      {"scenario": name, "choices": choices, "line": bool(line_files), "bound": bound, "skip": skip})
    if prefix is not None:
        bodies, check, _ = make()
        sched.Clock.now = 1000.0
        x = sched.Execution(bodies, prefix, line_files, opcodes=opcodes, max_clock=max_clock, bound=bound, skip_in_mutex=skip).run()
        p = x.failure
        p2 = check(x)
        if p or p2:
            on_done(x, p or p2, prefix)
        return 1
    return sched.explore(ctx, make, bound, line_files, shard, on_done, cap=cap, opcodes=opcodes, max_clock=max_clock, skip_in_mutex=skip)


def classify(problem):
    for word in ("other processes see", "deadlock", "livelock", "conflicting", "another process", "descriptors", "cannot be locked again", "still locked",
                 "swallowed"):
        if word in problem:
            return word.replace(" ", "-")
    return problem.split(":")[1].strip() if problem.startswith("thread") else "other"
