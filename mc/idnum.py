"""Files told apart by whatever device and inode numbers the system gives them: every ordered pair over a set of numbers, the real answers of
stat and fstat being renumbered. Locks and descriptors of one file must not meddle with those of another."""
import os

from . import core, envs
from .envs import R
from .klock import Foreign

PAIRS = [(d, i) for d in (1, 2, 2 ** 16 + 1, 2 ** 32 + 1, 2 ** 63 + 1) for i in (1, 2)] + \
        [(1, i) for i in (2 ** 8 + 1, 2 ** 16 + 1, 2 ** 16 + 2, 2 ** 31, 2 ** 31 + 1, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 63 + 1, 2 ** 64 - 1)]


class Stat:
    def __init__(self, real, pair):
        self._real, (self.st_dev, self.st_ino) = real, pair

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __getitem__(self, k):
        return {1: self.st_ino, 2: self.st_dev}[k] if k in (1, 2) else self._real[k]


class Numbers:
    def __init__(self, ctx, p, q):
        self.paths = [os.path.join(ctx.scratch, n) for n in ("num-a", "num-b")]
        for path in self.paths:
            R.close(R.open(path, os.O_RDWR | os.O_CREAT, 0o666))
        self.map = {R.stat(path).st_ino: pair for path, pair in zip(self.paths, (p, q))}

    def __call__(self, name, real, a, kw):
        r = real(*a, **kw)
        if name in ("fstat", "stat", "lstat"):
            pair = self.map.get(r.st_ino)
            if pair:
                return Stat(r, pair)
        return r


def is_open(fd):
    try:
        R.fstat(fd)
        return True
    except OSError:
        return False


def one(ctx, rsfile, p, q, mode):
    """a problem or None"""
    env = Numbers(ctx, p, q)
    foreign = [Foreign(path) for path in env.paths]
    envs.set_hook(env)
    s = []
    try:
        kw = dict(buffering=0, thread_safe=False) if mode == "raw" else {}
        for k in (0, 1, 0, 1):
            s.append(rsfile.rsopen(env.paths[k], "RWB" if mode != "text" else "RWT", locking=False, **kw))
        ids = [x.unique_id() for x in s]
        if ids[0] != ids[2] or ids[1] != ids[3]:
            return "streams on one file have ids %r" % (ids,)
        if ids[0] == ids[1]:
            return "streams on different files have the same id %r" % (ids[0],)
        s[0].lock_file(timeout=0)
        try:
            s[1].lock_file(timeout=0)
        except OSError as e:
            return "the lock of one file prevents that of the other: %r" % e
        for x in (2, 3):
            try:
                s[x].lock_file(timeout=0)
                return "a conflicting lock was granted"
            except OSError:
                pass
        fd = s[3].fileno()
        s[3].close()
        if not is_open(fd):
            return "a descriptor was closed while a lock is held on its file"
        s[1].unlock_file()
        if is_open(fd):
            return "a descriptor stays open although no lock is left on its file"
        seen = [f.seen(0, None) for f in foreign]
        if seen[0] != "W" or seen[1]:
            return "other processes see locks %r" % (seen,)
        s[0].close()
        s[2].close()
        seen = [f.seen(0, None) for f in foreign]
        if seen != ["", ""]:
            return "locks left: %r" % (seen,)
        return None
    except Exception as e:
        if core.in_code_under_test(e.__traceback__) is None:
            raise
        return "raised %r" % e
    finally:
        envs.set_hook(None)
        for x in s:
            try:
                x.close()
            except Exception:
                pass
        for f in foreign:
            f.close()


def run(ctx):
    envs.install()
    rsfile = core.import_rsfile()

    def job(c, j):
        p, mode = j
        for q in PAIRS:
            if q == p:
                continue
            problem = one(c, rsfile, p, q, mode)
            c.stats.add("executions")
            c.stats.add("nontrivial")
            c.outcome(("numbers", p, q))
            if problem:
                c.violation("numbers:" + problem[:20], "files having the device and inode numbers %r and %r, %s streams: %s" % (p, q, mode, problem),
                            {"numbers": [p, q, mode]})
                return
    ctx.parallel([(p, m) for p in PAIRS for m in ("raw", "safe", "text")], job)


def replay(ctx, r):
    envs.install()
    rsfile = core.import_rsfile()
    p, q, mode = r["numbers"]
    problem = one(ctx, rsfile, tuple(p), tuple(q), mode)
    if problem:
        ctx.violation("replay", problem, r)
