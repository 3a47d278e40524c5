"""P14: what sync() promises, against a model of the device: durable bytes and metadata per file, crash assumed at every return."""
import errno
import itertools
import os
import stat

from .. import core, envs, hist
from ..envs import R

LEVEL = "fault_enumeration"
RULE = ("every history up to a depth that ends with a sync (or, on synchronized streams, with a write), under every combination of answers "
        "of the native primitives; the process is assumed to crash at each return, and what the device then holds is compared with what was "
        "written. Non-trivial: the history wrote something and a primitive was called")
ASSUMPTIONS = ["device model: fsync and F_FULLFSYNC make data, size and metadata of the file durable, fdatasync data and size, a write on an O_SYNC "
               "descriptor its own range and the size; a primitive failing with a device error (EIO, ENOSPC) drops the dirty pages, as Linux "
               "does, so a later success does not cover them; failing with EINVAL, ENOSYS, ENOTSUP or ENOTTY means 'not supported' and does nothing"]

F_FULLFSYNC = 51
UNSUPPORTED = (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP, errno.ENOTTY)


class Device:
    """hook: plays the native primitives and remembers what is durable"""

    def __init__(self, plan):
        self.plan = plan          # name -> tuple of answers, the last one repeated: None, errno, or 'short'
        self.calls = {}
        self.durable = {}         # (dev, ino) -> bytes
        self.meta_clean = set()
        self.lost = set()
        self.ok = self.failed = 0
        self.syncfds = set()
        self.problem = None

    def key(self, fd):
        st = R.fstat(fd)
        return (st.st_dev, st.st_ino) if stat.S_ISREG(st.st_mode) else None

    def answer(self, name):
        seq = self.plan.get(name, (None,))
        i = self.calls.get(name, 0)
        self.calls[name] = i + 1
        return seq[min(i, len(seq) - 1)]

    def content(self, fd):
        p = "/proc/self/fd/%d" % fd
        f = R.open(p, os.O_RDONLY)
        try:
            return R.pread(f, 1 << 20, 0)
        finally:
            R.close(f)

    def primitive(self, name, fd, meta):
        a = self.answer(name)
        k = self.key(fd)
        if a is not None:
            self.failed += 1
            if a not in UNSUPPORTED and k in self.durable:
                self.lost.add(k)
            raise OSError(a, os.strerror(a))
        if k is None:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        self.ok += 1
        if k not in self.lost:
            self.durable[k] = self.content(fd)
            if meta:
                self.meta_clean.add(k)

    def __call__(self, name, real, a, kw):
        if name == "fsync":
            return self.primitive("fsync", a[0] if isinstance(a[0], int) else a[0].fileno(), True)
        if name == "fdatasync":
            return self.primitive("fdatasync", a[0] if isinstance(a[0], int) else a[0].fileno(), False)
        if name == "fcntl_fcntl" and a[1] == F_FULLFSYNC:
            return self.primitive("full", a[0] if isinstance(a[0], int) else a[0].fileno(), True)
        if name == "open":
            flags = a[1] if len(a) > 1 else kw["flags"]
            fd = real(*a, **kw)
            self.syncfds.discard(fd)
            if (flags & os.O_SYNC) == os.O_SYNC:
                self.syncfds.add(fd)
            k = self.key(fd)
            if k is not None:
                self.durable.setdefault(k, self.content(fd))
            return fd
        if name == "write":
            ans = self.answer("write")
            data = a[1]
            if isinstance(ans, int):
                raise OSError(ans, os.strerror(ans))
            if ans == "short" and memoryview(data).nbytes > 1:
                data = bytes(memoryview(data).cast("B")[:1])
            n = real(a[0], data)
            k = self.key(a[0])
            if k is not None and n:
                self.meta_clean.discard(k)
                if a[0] in self.syncfds:
                    end = R.lseek(a[0], 0, os.SEEK_CUR)
                    d = bytearray(self.durable.get(k, b""))
                    if len(d) < end:
                        d.extend(bytes(end - len(d)))
                    d[end - n:end] = bytes(memoryview(data).cast("B")[:n])
                    self.durable[k] = bytes(d)
            return n
        if name == "ftruncate":
            r = real(*a, **kw)
            k = self.key(a[0])
            if k is not None:
                self.meta_clean.discard(k)
            return r
        return real(*a, **kw)


def plans(quick):
    E, S = errno.EIO, errno.ENOSPC
    full = [(errno.EINVAL,), (None,), (errno.EIO,), (errno.ENOTSUP,)] + ([] if quick else [(errno.ENOTTY,), (E, None)])
    data = [(None,), (E,), (errno.EINVAL,), (errno.ENOSYS,)] + ([] if quick else [(E, None), (errno.ENOTSUP,)])
    fs = [(None,), (E,), (E, None), (errno.EINVAL,)] + ([] if quick else [(S,)])
    res = [dict(full=a, fdatasync=b, fsync=c) for a in full for b in data for c in fs]
    for w in (("short",), (S,), (errno.EAGAIN,), (None, S, None), (E,), (S, None), ("short", errno.EAGAIN, "short"), (None, "short", S)):
        for a in full[:2]:
            for b in data[:2]:
                for c in fs[:2]:
                    res.append(dict(full=a, fdatasync=b, fsync=c, write=w))
    return res


SYNCS = [("sync",), ("sync", False), ("sync", False, False), ("sync", True, False)]
OPS = [("write", 2), ("write", 9), ("seek", 0), ("seek", 12), ("truncate", 4), ("truncate", 15), ("read", 2), ("flush",)]


class Config:
    def __init__(self, name, mode, buffering, safe=False, origin="path"):
        self.name, self.mode, self.buffering, self.safe, self.origin = name, mode, buffering, safe, origin
        self.text = "T" in mode
        self.raw = buffering == 0
        self.sync = "S" in mode


def configs(quick):
    c = [Config("raw", "RWB", 0), Config("raw-append", "AB", 0), Config("raw-safe", "RWB", 0, True), Config("buf4", "RWB", 4),
         Config("writer", "WB", -1), Config("append", "RAB", 4), Config("text", "RWT", -1), Config("text4", "WT", 4),
         Config("text-safe", "RWT", -1, True), Config("buf-safe", "RWB", -1, True), Config("line", "WT", 1), Config("fileno", "RWB", -1, origin="fileno"),
         Config("reader", "RB", -1), Config("text-fileno", "WT", 8, origin="handle")]
    return c


def sync_configs(quick):
    return [Config("S-" + m + str(b), m, b, s) for m, b, s in
            (("RWSB", 0, False), ("WSB", 0, True), ("ASB", 0, False), ("RASB", 4, False), ("RWSB", 4, True), ("WST", -1, False), ("RWST", 5, True),
             ("WSB", -1, False), ("WCSB", 0, False), ("WSIB", 0, True), ("WSEB", 0, False), ("WNST", 3, False))]


INITIAL = b"ab\ncdefgh"


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.path = os.path.join(ctx.scratch, "data")

    def run(self, cfg, plan, hist_):
        """None, or (index, problem)"""
        for p in (self.path,):
            try:
                R.unlink(p)
            except FileNotFoundError:
                pass
        if "C" not in cfg.mode:
            fd = R.open(self.path, os.O_RDWR | os.O_CREAT, 0o644)
            R.write(fd, INITIAL)
            R.close(fd)
        dev = Device(plan)
        self.dev = dev
        self.wrote = False
        self.marks = set()        # positions written through a buffered synchronized stream
        init = b"" if "C" in cfg.mode or "E" in cfg.mode else INITIAL
        m = hist.Model(init, "R" in cfg.mode, "W" in cfg.mode or "A" in cfg.mode, "A" in cfg.mode)
        st = None
        envs.set_hook(dev)
        try:
            kw = dict(buffering=cfg.buffering, locking=False, thread_safe=cfg.safe)
            if cfg.text:
                kw.update(encoding="ascii", newline="")
            if cfg.origin == "path":
                st = rsfile.rsopen(self.path, cfg.mode, **kw)
            else:
                fd = os.open(self.path, os.O_RDWR)
                st = rsfile.rsopen(None, cfg.mode, **{cfg.origin: fd}, **kw)
            k = dev.key(st.fileno())
            for i, op in enumerate(hist_):
                r = self.step(cfg, dev, k, m, st, i, op)
                if r == "stop":
                    return None
                if r:
                    return i, r
            return None
        finally:
            envs.set_hook(None)
            if st is not None:
                try:
                    st.close()
                except Exception:
                    pass
                try:
                    R.close(st.fileno())
                except Exception:
                    pass

    def step(self, cfg, dev, k, m, st, i, op):
        conv = (lambda b: b.decode("ascii")) if cfg.text else (lambda b: b)
        name = op[0]
        dev.ok = dev.failed = 0
        if name == "sync":
            before = set(dev.lost)
            try:
                st.sync(*op[1:])
            except OSError:
                # the caller was told
                dev.lost.clear()
                dev.durable[k] = dev.content(st.fileno())
                dev.meta_clean.add(k)
                return None
            want = bytes(m.data)
            have = dev.durable.get(k)
            if dev.failed and not dev.ok:
                return "sync returned although every native primitive tried failed"
            if dev.lost:
                return "sync returned although the device reported an error"
            if have != want:
                return "after sync(%s) returned, a crash leaves %r instead of %r" % (",".join(map(repr, op[1:])), have, want)
            if (len(op) == 1 or op[1]) and self.wrote and k not in dev.meta_clean:
                return "after sync(%s) returned, the metadata of the file is not on the device" % ",".join(map(repr, op[1:]))
            return None
        try:
            if name == "write":
                data = hist.payload(i, op[1])
                if not m.w:
                    return None
                n = st.write(conv(data))
                self.wrote = True
                if cfg.raw:
                    if n is None:
                        return None
                    m.write(data[:n])
                    if cfg.sync:
                        return self.durable(dev, k, m, len(data[:n]))
                else:
                    m.write(data)
                    self.marks.update(range(m.pos - len(data), m.pos))
            elif name == "seek":
                m.seek(st.seek(op[1]), 0)
            elif name == "truncate":
                if m.w:
                    st.truncate(op[1])
                    m.truncate(op[1])
                    self.marks = {p for p in self.marks if p < op[1]}
                    self.wrote = True
            elif name == "read":
                if m.r and (not cfg.text):
                    d = st.read(op[1])
                    m.read(len(d or b""))
            elif name in ("flush", "close"):
                getattr(st, name)()
                if cfg.sync and self.wrote:
                    have, want = dev.durable.get(k), bytes(m.data)
                    if any(have[p:p + 1] != want[p:p + 1] for p in self.marks):
                        return "after %s of a synchronized stream, a crash leaves %r instead of %r" % (name, have, want)
        except (OSError, ValueError) as e:
            return "stop"
        return None

    def durable(self, dev, k, m, n):
        have = dev.durable.get(k, b"")
        if have[m.pos - n:m.pos] != bytes(m.data[m.pos - n:m.pos]):
            return "a raw write of a synchronized stream returned, a crash leaves %r instead of %r" % (have, bytes(m.data))

    def helper(self, plan, job):
        fn, data, buffering, kw, pre = job
        try:
            R.unlink(self.path)
        except FileNotFoundError:
            pass
        if pre is not None:
            fd = R.open(self.path, os.O_RDWR | os.O_CREAT, 0o644)
            R.write(fd, pre)
            R.close(fd)
        dev = self.dev = Device(plan)
        envs.set_hook(dev)
        try:
            getattr(rsfile, fn)(self.path, data, sync=True, buffering=buffering, locking=False, **kw)
        except OSError:
            return None
        finally:
            envs.set_hook(None)
        raw = data if isinstance(data, bytes) else data.encode(kw.get("encoding") or "utf8")
        want = raw if fn == "write_to_file" else (pre or b"") + raw
        st = os.stat(self.path)
        k = (st.st_dev, st.st_ino)
        have = dev.durable.get(k)
        if have != want:
            return "%s(sync=True) returned, a crash leaves %r instead of %r" % (fn, have, want)
        if k in dev.lost:
            return "%s(sync=True) returned although the device reported an error" % fn
        if k not in dev.meta_clean and raw:
            return "%s(sync=True) returned, the metadata of the file is not on the device" % fn


def helper_jobs():
    res = []
    for fn in ("write_to_file", "append_to_file"):
        for pre in (None, b"", b"old content"):
            for data in (b"", b"x", b"0123456789", "text", "", "\xe9t\xe9"):
                for b in ((0, 3, None) if isinstance(data, bytes) else (3, None, 1)):
                    res.append((fn, data, b, {"encoding": "utf8"} if isinstance(data, str) else {}, pre))
    return res


def bounds(ctx):
    return {"streams": [c.name for c in configs(ctx.quick)], "synchronized streams": [c.name for c in sync_configs(ctx.quick)],
            "answer combinations": len(plans(ctx.quick)), "depth": 3 if ctx.quick else 4, "alphabet": len(OPS) + len(SYNCS),
            "helper calls": len(helper_jobs()), "platforms": ["with fdatasync", "without fdatasync"]}


def depth(ctx, cfg):
    return 3 if ctx.quick else 4


def histories(cfg, d, first, last):
    ops = [o for o in OPS if not (cfg.text and o[0] == "read")] + SYNCS
    for mid in itertools.product(ops, repeat=d - 2):
        for l in last:
            yield (first,) + mid + (l,)


def record(ctx, key, desc, data):
    ctx.violation(key, desc, data)


def run_one(ctx, w, cfg, plan, h, key):
    res = w.run(cfg, plan, h)
    ctx.stats.add("executions")
    if w.wrote and w.dev.calls:
        ctx.stats.add("nontrivial")
    ctx.outcome((cfg.name, tuple(sorted(w.dev.calls.items())), res is None))
    if res:
        i, problem = res
        h = h[:i + 1]
        ctx.violation("%s:%s" % (key, problem.split(",")[0][:60]), "stream %s (mode %s), primitives answering %s: after %s: %s" % (
            cfg.name, cfg.mode, plan_text(plan), hist.fmt(h), problem),
            {"config": cfg.name, "plan": plan, "history": [list(o) for o in h]})
        return True


def plan_text(plan):
    return ", ".join("%s=%s" % (k, "/".join(errno.errorcode.get(a, str(a)) if a is not None else "ok" for a in v)) for k, v in plan.items())


def job(ctx, j):
    kind = j[0]
    w = World(ctx)
    P = plans(ctx.quick)
    if kind == "sync":
        _, name, first = j
        cfg = [c for c in configs(ctx.quick) if c.name == name][0]
        for h in histories(cfg, depth(ctx, cfg), first, SYNCS):
            for plan in P:
                if run_one(ctx, w, cfg, plan, h, "sync"):
                    return
    elif kind == "S":
        _, name, first = j
        cfg = [c for c in sync_configs(ctx.quick) if c.name == name][0]
        for h in histories(cfg, depth(ctx, cfg), first, [("write", 2), ("write", 9), ("flush",), ("close",)]):
            for plan in [p for p in P if "write" in p] + P[:1]:
                if run_one(ctx, w, cfg, plan, h, "synchronized"):
                    return
    elif kind == "helper":
        for hj in helper_jobs()[j[1]::8]:
            for plan in P:
                p = w.helper(plan, hj)
                ctx.stats.add("executions")
                ctx.stats.add("nontrivial")
                ctx.outcome((hj[0], tuple(sorted(w.dev.calls.items()))))
                if p:
                    ctx.violation("helper:%s" % hj[0], "%s, data %r, buffering %r, file %r, primitives answering %s: %s" % (
                        hj[0], hj[1], hj[2], hj[4], plan_text(plan), p), {"helper": hj, "plan": plan})
                    return
    elif kind == "pipe":
        for safe in (False, True):
            for b in (0, -1):
                for args in ((), (False,), (True, False), (False, False)):
                    r, wr = R_pipe()
                    dev = Device({"full": (errno.EINVAL,)})
                    envs.set_hook(dev)
                    st = rsfile.rsopen(None, "WB", fileno=wr, buffering=b, locking=False, thread_safe=safe)
                    try:
                        st.sync(*args)
                        ctx.violation("pipe", "sync%r on a pipe returned" % (args,), {"pipe": True})
                    except OSError:
                        pass
                    finally:
                        envs.set_hook(None)
                        st.close()
                        R.close(r)
                    ctx.stats.add("executions")


def R_pipe():
    return os.pipe()


def phase(ctx, absent):
    global rsfile
    if absent:
        del os.fdatasync
    envs.install()
    rsfile = core.import_rsfile()
    jobs = [("sync", c.name, f) for c in configs(ctx.quick) for f in [o for o in OPS if not (c.text and o[0] == "read")] + SYNCS]
    if not absent:
        jobs += [("S", c.name, f) for c in sync_configs(ctx.quick) for f in OPS if not (c.text and f[0] == "read")]
        jobs += [("pipe",)]
    jobs += [("helper", i) for i in range(8)]
    if absent:
        jobs = [j for j in jobs if j[0] == "helper" or j[1] in ("raw", "writer", "text-safe")]
    ctx.parallel(jobs, job)


def prepare(ctx):
    pass


def run(ctx):
    ctx.phase(lambda c: phase(c, False))
    if not ctx.violations:
        ctx.phase(lambda c: phase(c, True))
    ctx.sample("buf4, full=EINVAL, fdatasync=EIO, fsync=ok: write(9) ; seek(0) ; sync(False,False)")
    ctx.sample("S-WSB0, write=short: write(2) ; truncate(15) ; write(9)")


def replay(ctx, data):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()
    r = data["replay"]
    w = World(ctx)
    if "plan" not in r:
        return job(ctx, ("pipe",))
    plan = {k: tuple(v) for k, v in r["plan"].items()}
    if "helper" in r:
        import pickle
        hj = pickle.loads(bytes.fromhex(data["pickle"]))[1]["helper"]
        p = w.helper(plan, hj)
        if p:
            ctx.violation("helper", p, r)
        return
    cfg = [c for c in configs(True) + sync_configs(True) if c.name == r["config"]][0]
    run_one(ctx, w, cfg, plan, tuple(tuple(o) for o in r["history"]), "sync")
