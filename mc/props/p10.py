"""P10: every mode string, in every file state, against the documented table; the standard ones also against io.open itself."""
import errno
import fcntl
import io
import itertools
import os
import shutil
import stat

from .. import core, envs
from ..envs import R

LEVEL = "model_checking"
RULE = ("all mode strings: every subset of the advanced flags and of the standard flags in two orders, every permutation of up to four flags, "
        "every string of up to three characters over a mixed alphabet with foreign characters; each in every file state, with different umasks, "
        "permissions and stream chains, then every sequence of two openings; a state is a distinct observation of file and stream")
ASSUMPTIONS = ["permissions of files created through standard modes are those documented by rsfile (0777), not those of the standard library (0666)"]

ADV = "RAWCNSIEBT"
STD = "rwax+bt"
CONTENT = b"previous content"
io_open = io.open


# -- the specification, written from the documentation of rsopen() ----------------------------------------------------

def spec(mode):
    """dict of effects, or None if the mode must be rejected"""
    if len(set(mode)) != len(mode) or not mode:
        return None
    s = set(mode)
    if s <= set("rwax+btU") and not s <= set("+"):
        if "U" in s:
            return None           # no longer supported by Python
        if len(s & set("rwax")) != 1 or {"b", "t"} <= s:
            return None
        main = (s & set("rwax")).pop()
        plus = "+" in s
        return dict(read=main == "r" or plus, write=main != "r" or plus, append=main == "a", create=main == "x", exist=main == "r",
                    erase=main == "w", sync=False, inherit=False, text="b" not in s)
    if s <= set(ADV + "+-"):
        if not s & set("RWA"):
            return None
        create, exist = bool(s & set("C-")), bool(s & set("N+"))
        if create and exist or {"B", "T"} <= s:
            return None
        write = bool(s & set("WA"))
        if "E" in s and not write and not create:
            return None
        return dict(read="R" in s, write=write, append="A" in s, create=create, exist=exist, erase="E" in s, sync="S" in s, inherit="I" in s,
                    text="B" not in s)
    return None


EQUIV = [("r", "RN"), ("r+", "RWN"), ("w", "WE"), ("w+", "RWE"), ("a", "A"), ("a+", "RA"), ("x", "WC"), ("x+", "RWC")]
STATES = ["file", "absent", "empty", "dir", "link", "dangling"]


def strings(quick):
    seen = set()

    def add(m):
        if m not in seen:
            seen.add(m)
            return True
    res = []
    for n in range(0, len(ADV) + 1):
        for c in itertools.combinations(ADV, n):
            for m in ("".join(c), "".join(reversed(c))):
                if add(m):
                    res.append(m)
    for n in range(0, len(STD) + 1):
        for c in itertools.combinations(STD, n):
            for m in ("".join(c), "".join(reversed(c))):
                if add(m):
                    res.append(m)
    for alpha in (ADV + "+-", STD + "U"):
        for n in range(1, 5 if quick else 6):
            for c in itertools.permutations(alpha, n):
                m = "".join(c)
                if add(m):
                    res.append(m)
    mixed = "rwaxbt+URWACNSIEBT-" + "qZ0 \0\xe9,"
    for n in range(1, 4):
        for c in itertools.product(mixed, repeat=n):
            m = "".join(c)
            if add(m):
                res.append(m)
    return res


class World:
    def __init__(self, ctx):
        self.root = os.path.join(ctx.scratch, "w")
        os.mkdir(self.root)
        self.path = os.path.join(self.root, "f")
        self.target = os.path.join(self.root, "t")
        self.calls = []

    def clean(self):
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                os.rmdir(p)
            else:
                R.unlink(p)

    def setup(self, state):
        self.clean()
        self.data = None
        real = self.path
        if state in ("link", "dangling"):
            os.symlink(self.target, self.path)
            real = self.target
        if state in ("file", "link"):
            self.data = CONTENT
        elif state == "empty":
            self.data = b""
        elif state == "dir":
            os.mkdir(self.path)
        self.real = real
        if self.data is not None:
            fd = R.open(real, os.O_RDWR | os.O_CREAT, 0o640)
            R.write(fd, self.data)
            R.close(fd)
            os.chmod(real, 0o640)

    def hook(self, name, real, a, kw):
        self.calls.append(name)
        return real(*a, **kw)

    def content(self):
        try:
            fd = R.open(self.real, os.O_RDONLY)
        except FileNotFoundError:
            return None
        except OSError:
            return "error"
        try:
            return R.read(fd, 1 << 16)
        except IsADirectoryError:
            return "dir"
        finally:
            R.close(fd)

    def reject(self, mode, state, kw):
        """a mode string that must be refused"""
        self.setup(state)
        before = sorted(os.listdir(self.root)), self.content()
        self.calls = []
        envs.set_hook(self.hook)
        st = None
        try:
            st = rsfile.rsopen(self.path, mode, **kw)
        except ValueError:
            pass
        except Exception as e:
            return "raised %r instead of a ValueError" % e
        finally:
            envs.set_hook(None)
            if st is not None:
                st.close()
        if st is not None:
            return "was accepted"
        if self.calls:
            return "was rejected after touching the file system (%s)" % ", ".join(self.calls)
        if (sorted(os.listdir(self.root)), self.content()) != before:
            return "was rejected but the file system changed"
        return None

    def expect(self, s, state, data):
        """(exception class or None, data after opening)"""
        exists = data is not None
        if state == "dir":
            return OSError, data
        if s["create"] and (exists or state == "dangling"):
            return FileExistsError, data
        if s["exist"] and not exists:
            return FileNotFoundError, data
        if not exists:
            return None, b""
        return None, b"" if s["erase"] and not s["create"] else data

    def accept(self, mode, state, kw, perms=0o777, umask=0o022, fresh=True):
        """a mode string that must be accepted; (problem, observation)"""
        s = spec(mode)
        if fresh:
            self.setup(state)
        data = self.data
        existed = data is not None
        exc, after = self.expect(s, state, data)
        os.umask(umask)
        st = err = None
        try:
            st = rsfile.rsopen(self.path, mode, **kw)
        except Exception as e:
            err = e
        finally:
            os.umask(0o022)
        try:
            if exc is not None:
                if err is None:
                    return "opening succeeded instead of raising %s" % exc.__name__, None
                if not isinstance(err, exc):
                    return "opening raised %r instead of %s" % (err, exc.__name__), None
                if data is not None and self.content() != data:
                    return "a refused opening changed the content to %r" % self.content(), None
                if data is None and state != "dir" and os.path.exists(self.path):
                    return "a refused opening created the file", None
                return None, (mode, state, exc.__name__)
            if err is not None:
                return "opening raised %r" % err, None
            if self.content() != after:
                return "after opening the file contains %r instead of %r" % (self.content(), after), None
            self.data = after
            p = self.look(st, s, after, kw)
            if p:
                return p, None
            if not existed:
                got = stat.S_IMODE(os.stat(self.real).st_mode)
                if got != perms & ~umask:
                    return "the created file has permissions %o instead of %o" % (got, perms & ~umask), None
            elif fresh and stat.S_IMODE(os.stat(self.real).st_mode) != 0o640:
                return "opening changed the permissions of an existing file", None
            obs = (state, bytes(after), s["read"], s["write"], s["append"], s["sync"], s["inherit"], s["text"])
            p = self.use(st, s, kw)
            return p, obs
        finally:
            if st is not None:
                st.close()

    def look(self, st, s, data, kw):
        if (st.readable(), st.writable(), st.seekable()) != (s["read"], s["write"], True):
            return "readable, writable, seekable are %r" % ((st.readable(), st.writable(), st.seekable()),)
        want = len(data) if s["append"] else 0
        if st.tell() != want:
            return "the initial position is %r instead of %d" % (st.tell(), want)
        fl = fcntl.fcntl(st.fileno(), fcntl.F_GETFL)
        acc = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[s["read"], s["write"]]
        if fl & os.O_ACCMODE != acc:
            return "the access mode of the descriptor is %d instead of %d" % (fl & os.O_ACCMODE, acc)
        if bool(fl & os.O_APPEND) != s["append"]:
            return "the O_APPEND flag of the descriptor is %s" % bool(fl & os.O_APPEND)
        if ((fl & os.O_SYNC) == os.O_SYNC) != s["sync"]:
            return "the O_SYNC flag of the descriptor is %s" % ((fl & os.O_SYNC) == os.O_SYNC)
        if os.get_inheritable(st.fileno()) != s["inherit"]:
            return "the descriptor inheritability is %s" % os.get_inheritable(st.fileno())
        text = hasattr(st, "encoding")
        if text != s["text"]:
            return "the stream is %s" % ("in text mode" if text else "in binary mode")
        return None

    def use(self, st, s, kw):
        """one read and one write"""
        data = bytearray(self.data)
        conv = (lambda b: b.decode("ascii")) if s["text"] else bytes
        pos = len(data) if s["append"] else 0
        if s["read"]:
            st.seek(0)
            d = st.read(5)
            if d != conv(bytes(data[:5])):
                return "read(5) returned %r" % d
            st.seek(2)
            pos = 2
        else:
            try:
                st.read(1)
                return "reading was allowed"
            except (OSError, ValueError):
                pass
        if s["write"]:
            st.write(conv(b"XY"))
            st.flush()
            if s["append"]:
                pos = len(data)
            data.extend(bytes(max(0, pos - len(data))))
            data[pos:pos + 2] = b"XY"
        else:
            try:
                st.write(conv(b"XY"))
                return "writing was allowed"
            except (OSError, ValueError):
                pass
            try:
                st.truncate(0)
                return "truncating was allowed"
            except (OSError, ValueError):
                pass
        self.data = bytes(data)
        if self.content() != self.data:
            return "after writing, the file contains %r instead of %r" % (self.content(), self.data)
        return None

    def stdlib(self, mode, state):
        """the same opening by io.open: (class of the exception or None, content, readable, writable, position)"""
        self.setup(state)
        try:
            with io_open(self.path, mode) as f:
                r = (None, self.content(), f.readable(), f.writable(), f.seekable(), f.tell(), hasattr(f, "encoding"))
        except Exception as e:
            r = (("ValueError" if isinstance(e, ValueError) else type(e).__name__), self.content())
        self.setup(state)
        try:
            with rsfile.rsopen(self.path, mode) as f:
                q = (None, self.content(), f.readable(), f.writable(), f.seekable(), f.tell(), hasattr(f, "encoding"))
        except Exception as e:
            q = (("ValueError" if isinstance(e, ValueError) else type(e).__name__), self.content())
        if r != q:
            return "io.open gives %r, rsopen %r" % (r, q)


def chains(s):
    text = s["text"]
    return [dict(locking=True), dict(locking=False, thread_safe=False)] + ([] if text else [dict(locking=True, timeout=0, buffering=0)]) + \
        [dict(locking=True, buffering=7, thread_safe=False)]


def report(ctx, mode, state, kw, problem, extra=""):
    ctx.violation("%s:%s" % ("invalid" if spec(mode) is None else "valid", problem.split("(")[0][:50]), "mode %r, %s, %s%s: %s" % (
        mode, state, kw, extra, problem), {"mode": mode, "state": state, "kw": kw, "extra": extra})


def job(ctx, j):
    w = World(ctx)
    states = set()
    kind, k, n = j
    try:
        if kind == "strings":
            for mode in strings(ctx.quick)[k::n]:
                s = spec(mode)
                if s is None:
                    for state in ("file", "absent") if len(mode) < 4 or not ctx.quick else ("file",):
                        p = w.reject(mode, state, {"locking": False})
                        ctx.stats.add("executions")
                        ctx.stats.add("transitions")
                        states.add("rejected")
                        if p:
                            report(ctx, mode, state, {}, p)
                else:
                    for state in STATES:
                        for kw in chains(s) if len(mode) < 4 or not ctx.quick else chains(s)[:1]:
                            p, obs = w.accept(mode, state, kw)
                            ctx.stats.add("executions")
                            ctx.stats.add("transitions")
                            states.add(obs)
                            if p:
                                report(ctx, mode, state, kw, p)
                                break
        elif kind == "std":
            for mode in [m for m in strings(ctx.quick) if set(m) <= set(STD + "U")][k::n]:
                for state in STATES:
                    p = w.stdlib(mode, state)
                    ctx.stats.add("executions", 2)
                    ctx.stats.add("transitions", 2)
                    if p:
                        report(ctx, mode, state, {}, p)
        elif kind == "perms":
            todo = [(m, u, p) for m in ("W", "R", "RW", "A", "WE", "WC", "WB", "w", "a", "x", "w+", "a+", "RAE", "WS", "WI", "-W", "RWCSIE")
                    for u in (0, 0o022, 0o077, 0o177, 0o777) for p in (None, 0o777, 0o666, 0o600, 0o444, 0o400, 0o200, 0, 0o755, 0o1644)]
            for mode, umask, perms in todo[k::n]:
                for state in ("absent", "dangling", "file"):
                    kw = {"locking": False}
                    if perms is not None:
                        kw["permissions"] = perms
                    if spec(mode)["create"] and state != "absent":
                        continue
                    p, obs = w.accept(mode, state, kw, 0o777 if perms is None else perms, umask)
                    ctx.stats.add("executions")
                    ctx.stats.add("transitions")
                    states.add((obs, perms, umask))
                    if p:
                        report(ctx, mode, state, kw, p, ", umask %o" % umask)
        elif kind == "pairs":
            modes = [m for m in strings(True) if spec(m) and len(m) <= 3 and list(m) == sorted(m, key=(ADV + STD + "+-").find)]
            modes = [m for m in modes if "T" not in m and "t" not in m and "-" not in m and ("+" not in m or m.islower())]
            for m1 in modes[k::n]:
                for m2 in modes:
                    w.setup("absent")
                    hist = []
                    for m in (m1, m2, m1):
                        p, obs = w.accept(m, "absent" if w.data is None else "file", {"locking": True, "timeout": 0}, fresh=False)
                        hist.append(m)
                        ctx.stats.add("transitions")
                        states.add(obs)
                        if p:
                            report(ctx, m, "after %s" % hist[:-1], {}, p)
                            break
                    ctx.stats.add("executions")
        elif kind == "equiv":
            for a, b in EQUIV:
                for t in ("", "b", "t"):
                    for state in STATES:
                        res = []
                        for m in (a + t, b + t.upper()):
                            w.setup(state)
                            try:
                                with rsfile.rsopen(w.path, m, locking=False) as f:
                                    res.append((w.content(), f.readable(), f.writable(), f.tell(), os.get_inheritable(f.fileno()),
                                                fcntl.fcntl(f.fileno(), fcntl.F_GETFL), type(f.wrapped_stream), os.stat(w.path).st_mode))
                            except OSError as e:
                                res.append((type(e), w.content()))
                            ctx.stats.add("executions")
                            ctx.stats.add("transitions")
                        if res[0] != res[1]:
                            report(ctx, a + t, state, {}, "differs from its documented equivalent %s: %r, %r" % (b + t.upper(), res[0], res[1]))
    finally:
        w.clean()
        os.rmdir(w.root)
    states.discard(None)
    ctx.stats.add("states", len(states))
    for s in states:
        ctx.outcome(s)


def bounds(ctx):
    l = strings(ctx.quick)
    return {"mode strings": len(l), "of them valid": sum(1 for m in l if spec(m)), "file states": STATES}


def prepare(ctx):
    global rsfile
    envs.install()
    rsfile = core.import_rsfile()
    import multiprocessing.context
    shared = multiprocessing.RLock()
    multiprocessing.context.BaseContext.RLock = lambda self: shared
    multiprocessing.RLock = lambda: shared


def run(ctx):
    jobs = [("strings", k, 32) for k in range(32)] + [("pairs", k, 16) for k in range(16)] + [("perms", k, 4) for k in range(4)] + \
        [("std", k, 8) for k in range(8)] + [("equiv", 0, 1)]
    ctx.parallel(jobs, job)
    ctx.sample("mode 'NEWR' on a dangling symbolic link: FileNotFoundError, nothing created")


def replay(ctx, data):
    r = data["replay"]
    w = World(ctx)
    if isinstance(r["state"], str) and r["state"] in STATES:
        if spec(r["mode"]) is None:
            p = w.reject(r["mode"], r["state"], {"locking": False})
        else:
            p, _ = w.accept(r["mode"], r["state"], r["kw"], umask=int(r["extra"].split()[-1], 8) if r["extra"] else 0o022,
                            perms=r["kw"].get("permissions", 0o777))
        p = p or (set(r["mode"]) <= set(STD) and w.stdlib(r["mode"], r["state"]))
        if p:
            ctx.violation("replay", p, r)
    else:
        job(ctx, ("pairs", 0, 1))
    w.clean()
