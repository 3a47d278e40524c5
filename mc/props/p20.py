"""P20: wrapping descriptors: what is opened, how it behaves, what is closed; targets which must be refused."""
import errno
import fcntl
import gc
import io
import itertools
import os
import warnings

from .. import core, envs, hist
from ..envs import R

LEVEL = "model_checking"
RULE = ("the full product of descriptor kinds, descriptor numbers (0, ordinary, large), ways of giving the target, modes, stream layers, locking, closefd, scripts of "
        "calls and ways of ending the stream; and the full product of contradictory or malformed targets; before and after each the whole descriptor "
        "table, the directory, the file and the flags and position of the descriptor are compared with a model; a state is a distinct observation")
ASSUMPTIONS = ["when the mode contradicts the access of the descriptor, only damage and leaks are judged, not which call reports it"]

CONTENT = b"0123456789"
START = 4
STD = ["rb", "r+b", "wb", "w+b", "ab", "a+b", "xb", "x+b"]
ADV = ["RB", "WB", "RWB", "AB", "RAB", "WEB", "RWEB", "WCB", "RNB", "RWNB", "RWSIB", "RWCEB"]
LAYERS = {
    "raw": dict(buffering=0, thread_safe=False),
    "rawsafe": dict(buffering=0),
    "buf": dict(thread_safe=False),
    "buf3": dict(buffering=3),
    "text": dict(thread_safe=False, encoding="ascii"),
    "textsafe": dict(encoding="ascii", buffering=4),
}
KINDS = {"rw": os.O_RDWR, "ro": os.O_RDONLY, "wo": os.O_WRONLY, "append": os.O_RDWR | os.O_APPEND, "pipe-r": None, "pipe-w": None, "dir": None,
         "closed": None, "null": None}
SCRIPTS = [
    (),
    (("read", 3), ("tell",)),
    (("write", b"XY"), ("tell",), ("flush",)),
    (("read", 2), ("write", b"ab"), ("size",)),
    (("seek", 1), ("write", b"Q"), ("seek", 0), ("read", 4)),
    (("tell",), ("read", -1), ("read", 1)),
    (("trunc", 7), ("tell",), ("write", b"zz")),
    (("seek", 8), ("read", 5), ("trunc", None), ("size",)),
    (("lock",), ("write", b"L"), ("read", 1), ("unlock",)),
]
ENDS = ["close", "with", "lose", "exc"]
SOURCES = ["name", "fileno", "handle", "opener", "builtin", "fileio", "fileno-none"]
BIG = 600


def access(mode):
    """(read, write, append) of the stream"""
    if mode.islower():
        return ("r" in mode or "+" in mode), mode != "rb", "a" in mode
    return "R" in mode, ("W" in mode or "A" in mode), "A" in mode


class World:
    def __init__(self, ctx):
        self.dir = os.path.join(ctx.scratch, "p20")
        os.makedirs(self.dir, exist_ok=True)
        self.path = os.path.join(self.dir, "f")
        self.sub = os.path.join(self.dir, "d")
        os.makedirs(self.sub, exist_ok=True)
        self.hfd = R.open(self.path, os.O_RDWR | os.O_CREAT, 0o644)
        self.other = None
        self.seen = set()

    def table(self):
        d = {}
        for n in os.listdir("/proc/self/fd"):
            try:
                st = R.fstat(int(n))
                d[int(n)] = (st.st_dev, st.st_ino)
            except OSError:
                pass
        return d

    def content(self):
        return R.pread(self.hfd, 1 << 16, 0)

    def reset(self):
        R.ftruncate(self.hfd, 0)
        R.pwrite(self.hfd, CONTENT, 0)

    def target(self, kind, number):
        """a new descriptor of that kind, with a number of that class; self.other is the far end of a pipe"""
        self.other = None
        if kind in ("pipe-r", "pipe-w"):
            r, w = os.pipe()
            fd, self.other = (r, w) if kind == "pipe-r" else (w, r)
            os.set_blocking(self.other, False)
            if kind == "pipe-r":
                R.write(w, b"pipedata")
        elif kind == "dir":
            fd = R.open(self.sub, os.O_RDONLY)
        elif kind == "null":
            fd = R.open("/dev/null", os.O_RDWR)
        elif kind == "closed":
            fd = R.open("/dev/null", os.O_RDWR)
        else:
            fd = R.open(self.path, KINDS[kind])
            R.lseek(fd, START, 0)
        if number == "zero":
            R.dup2(fd, 0, False)
            R.close(fd)
            fd = 0
        elif number == "large":
            n = R.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, BIG)
            R.close(fd)
            fd = n
        if kind == "closed":
            R.close(fd)
        return fd


def opening(w, source, fd, mode, layer, closefd, locking, path=None):
    kw = dict(LAYERS[layer])
    if "text" in layer:
        mode = mode.replace("b", "").replace("B", "")
    if source == "name":
        return rsfile.rsopen(fd, mode, closefd=closefd, locking=locking, timeout=0, **kw)
    if source == "fileno":
        return rsfile.rsopen(fileno=fd, mode=mode, closefd=closefd, locking=locking, timeout=0, **kw)
    if source == "fileno-none":
        return rsfile.rsopen(None, mode, fileno=fd, handle=None, closefd=closefd, locking=locking, timeout=0, **kw)
    if source == "handle":
        return rsfile.rsopen(handle=fd, mode=mode, closefd=closefd, locking=locking, timeout=0, **kw)
    if source == "opener":
        return rsfile.rsopen(w.path, mode, opener=lambda p, f: fd, locking=locking, timeout=0, **kw)
    if source == "builtin":
        kw.pop("thread_safe", None)
        return rsfile.rsfile_utilities.BUILTIN_OPEN_FUNC_REPLACEMENT(fd, mode, closefd=closefd, **kw)
    return rsfile.rsfile_utilities.RSFileIOWrapper(fd, mode, closefd)


def one(ctx, w, case):
    """a problem or None"""
    kind, number, source, mode, layer, closefd, locking, script, end = case
    w.reset()
    fd = w.target(kind, number)
    regular = kind in ("rw", "ro", "wo", "append")
    closed0 = kind == "closed"
    flags = None if closed0 else (R.fcntl(fd, fcntl.F_GETFL), R.fcntl(fd, fcntl.F_GETFD))
    before = w.table()
    names = sorted(os.listdir(w.dir))
    s = None
    problem = None
    r, wr, app = access(mode)
    fd_r, fd_w = kind in ("rw", "ro", "append", "pipe-r", "null"), kind in ("rw", "wo", "append", "pipe-w", "null")
    compatible = (fd_r or not r) and (fd_w or not wr)
    text = "text" in layer
    try:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = opening(w, source, fd, mode, layer, closefd, locking)
        except (OSError, ValueError, TypeError) as e:
            err = e
            del e
        if s is None:
            res = type(err).__name__
            err.__traceback__ = None
            now = w.table()
            if source in ("name", "builtin") and mode.isupper() and not isinstance(err, ValueError):
                return "integer name with an advanced mode: %s" % res
            if w.content() != CONTENT:
                return "a refused opening changed the file"
            refused = closed0 or kind == "dir" or (source == "name" and mode.isupper())
            text_rw_pipe = kind.startswith("pipe") or kind == "null"
            if compatible and not refused and not text_rw_pipe:
                return "opening failed: %s" % res
            if text_rw_pipe and compatible and not refused and not (r and wr) and not (text and app) and not app:
                return "opening of a %s failed: %s" % (kind, res)
            allowed = [before]
            if closefd and not (kind == "dir" and source != "opener") and not (source == "name" and mode.isupper()):
                allowed.append({k: v for k, v in before.items() if k != fd})
            if now not in allowed:
                return "after the refusal (%s) the descriptor table changed: %s" % (res, sorted(set(before.items()) ^ set(now.items())))
            ctx.outcome((kind, source, res))
            return None
        # -- opened
        if closed0 or kind == "dir":
            return "a stream was created on a %s descriptor" % kind
        if source == "name" and mode.isupper():
            return "integer name accepted with an advanced mode"
        if w.table() != before:
            return "the opening changed the descriptor table: %s" % sorted(set(before.items()) ^ set(w.table().items()))
        if w.content() != CONTENT:
            return "the opening changed the file to %r" % w.content()
        if (R.fcntl(fd, fcntl.F_GETFL), R.fcntl(fd, fcntl.F_GETFD)) != flags:
            return "the opening changed the flags of the descriptor"
        if sorted(os.listdir(w.dir)) != names:
            return "the opening created files: %s" % os.listdir(w.dir)
        pos = START
        if regular:
            pos = len(CONTENT) if app else START
            if R.lseek(fd, 0, 1) != pos:
                return "position after the opening is %d instead of %d" % (R.lseek(fd, 0, 1), pos)
        if s.fileno() != fd or s.handle() != fd:
            return "fileno() %r, handle() %r instead of %d" % (s.fileno(), s.handle(), fd)
        if s.closefd is not closefd:
            return "closefd is %r" % (s.closefd,)
        C = bytearray(CONTENT)
        uncertain = False

        def do(op):
            nonlocal pos, C, uncertain
            k = op[0]
            if not regular and k not in ("read", "write", "flush"):
                return None
            want = None
            try:
                if k == "read":
                    if not regular and (kind == "null" or not fd_r or op[1] < 0):
                        return None
                    got = s.read(op[1])
                    if not regular:
                        want = None
                        data = b"pipedata"[:op[1]]
                        if not compatible or r and (got.encode() if text else got) != data and not uncertain:
                            return None if not compatible else "read %r from the pipe" % (got,)
                        uncertain = True
                        return None
                    data = bytes(C[pos:] if op[1] < 0 else C[pos:pos + op[1]])
                    pos += len(data)
                    want = data.decode() if text else data
                elif k == "write":
                    got = s.write(op[1].decode() if text else op[1])
                    if wr and fd_w and regular:
                        if kind == "append":
                            pos = len(C)
                        C += bytes(max(0, pos - len(C)))
                        C[pos:pos + len(op[1])] = op[1]
                        pos += len(op[1])
                    want = len(op[1])
                elif k == "tell":
                    got, want = s.tell(), pos
                elif k == "size":
                    got, want = s.size(), len(C)
                elif k == "flush":
                    got, want = s.flush(), None
                elif k == "seek":
                    got, want = s.seek(op[1]), op[1]
                    pos = op[1]
                elif k == "trunc":
                    got = s.truncate(op[1])
                    n = pos if op[1] is None else op[1]
                    C = C[:n] + bytes(max(0, n - len(C)))
                    want = n
                elif k == "lock":
                    if not locking:
                        s.lock_file(timeout=0)
                    return None
                elif k == "unlock":
                    s.unlock_file()
                    return None
            except io.UnsupportedOperation:
                if k == "read" and not r or k in ("write", "trunc") and not wr or not regular:
                    return None
                return "%s refused" % k
            except OSError:
                if compatible:
                    raise
                uncertain = True
                return None
            if compatible and regular:
                if k == "read" and not r or k in ("write", "trunc") and not wr:
                    return "%s accepted in mode %s" % (k, mode)
                if got != want and not (text and k == "seek" and False) and not (kind == "append" and k == "tell" and text):
                    return "%s returned %r instead of %r" % (k, got, want)
            return None

        # an append-only *descriptor* moves the position at the time of the system call, which buffers cannot know
        judged = script
        if text and "read" in [o[0] for o in script] and "write" in [o[0] for o in script][[o[0] for o in script].index("read"):]:
            judged = script[:1]       # unspecified without a seek between
        if kind == "append" and layer not in ("raw", "rawsafe") and not app:
            judged = tuple(o for o in script if o[0] not in ("tell", "seek", "read"))[:1]
        boom = None
        try:
            for op in judged:
                problem = do(op)
                if problem:
                    return "after %s: %s" % (hist.fmt(judged[:judged.index(op)]), problem)
        except Exception as e:
            if core.in_code_under_test(e.__traceback__) is None:
                raise
            if compatible:
                return "raised %r" % e
        # -- the end
        try:
            if end == "close":
                s.close()
            elif end == "with":
                with s:
                    pass
            elif end == "exc":
                try:
                    with s:
                        raise KeyError
                except KeyError:
                    pass
            else:
                unraisable.clear()
                s = None
                if unraisable and compatible:
                    return "losing the stream: %s" % unraisable
        except OSError as e:
            if compatible:
                return "closing raised %r" % e
        now = w.table()
        want = {k: v for k, v in before.items() if k != fd} if closefd else before
        if now != want:
            return "closefd=%s, after %s the descriptor table differs: %s" % (closefd, end, sorted(set(want.items()) ^ set(now.items())))
        if regular and (compatible or not wr) and w.content() != C:
            return "the file contains %r instead of %r" % (w.content(), bytes(C))
        if not closefd:
            if (R.fcntl(fd, fcntl.F_GETFL), R.fcntl(fd, fcntl.F_GETFD)) != flags:
                return "the stream changed the flags of the descriptor"
            if regular and compatible and layer in ("raw", "rawsafe") and R.lseek(fd, 0, 1) != pos:
                return "the descriptor is left at %d instead of %d" % (R.lseek(fd, 0, 1), pos)
        elif number != "large":
            # the number is reused: closing again must not close it
            n = R.open(w.path, os.O_RDONLY)
            if number == "zero" and n != 0:
                R.dup2(n, 0)
                R.close(n)
                n = 0
            if s is not None:
                s.close()
                s = None
            try:
                R.fstat(n)
            except OSError:
                return "closing again closed another descriptor with the same number"
            R.close(n)
        ctx.outcome((kind, source, mode, layer, closefd, bytes(C), pos))
        w.seen.add((mode, layer, closefd, bytes(C), pos))
        return None
    finally:
        try:
            if s is not None:
                s.close()
        except (OSError, ValueError):
            pass
        s = None
        for n in (fd, w.other):
            if n is not None:
                try:
                    R.close(n)
                except OSError:
                    pass
        w.other = None
        occupy()


def occupy():
    """number 0 is never free outside the cases which use it"""
    fd = R.open("/dev/null", os.O_RDWR)
    if fd:
        R.close(fd)


def cases(quick):
    """groups"""
    for kind in KINDS:
        for number in ("small", "zero", "large"):
            for source in SOURCES:
                yield kind, number, source


def group(ctx, w, g):
    kind, number, source = g
    quick = ctx.quick
    modes = STD + (ADV if source not in ("builtin", "fileio") else [])
    if source == "fileio":
        modes = [m for m in modes]
    for mode in modes:
        for layer in LAYERS if source != "fileio" else ["raw"]:
            if source == "builtin" and layer in ("rawsafe", "buf3"):
                continue
            if "text" in layer and mode.islower() and source == "fileio":
                continue
            for closefd in (True, False):
                if source == "opener" and not closefd:
                    continue
                for locking in (False, True) if source not in ("builtin", "fileio") else (False,):
                    for si, script in enumerate(SCRIPTS):
                        if any(o[0] in ("lock", "unlock") for o in script) and source in ("builtin", "fileio") and False:
                            continue
                        for ei, end in enumerate(ENDS):
                            if quick and si and ((si + ei + locking + len(mode) + len(layer)) % 4 if number == "zero" else (si + ei) % 4 or (locking ^ closefd)):
                                continue        # the thorough check takes the full product
                            case = (kind, number, source, mode, layer, closefd, locking, script, end)
                            p = one(ctx, w, case)
                            ctx.stats.add("executions")
                            ctx.stats.add("transitions", len(script) + 2)
                            if p:
                                ctx.violation("wrap:%s:%s" % (kind, p[:30]), "%s descriptor, number %s, given by %s, mode %s, layer %s, closefd=%s, locking=%s, %s, ended by %s: %s" % (
                                    kind, number, source, mode, layer, closefd, locking, hist.fmt(script), end, p), {"case": repr(case)})
                                return


# -- refused targets -----------------------------------------------------------------------------------------------

class Indexable:
    def __index__(self):
        return 7


def bad_targets(w, fd):
    """(label, kwargs) which must be refused with a ValueError, TypeError or OSError"""
    p = w.path
    new = os.path.join(w.dir, "new")
    res = [("nothing", {}), ("name+fileno", dict(name=p, fileno=fd)), ("new name+fileno", dict(name=new, fileno=fd)), ("name+handle", dict(name=p, handle=fd)),
           ("fileno+handle", dict(fileno=fd, handle=fd)), ("int+fileno", dict(name=fd, fileno=fd)), ("int+handle", dict(name=fd, handle=fd)), ("all", dict(name=p, fileno=fd, handle=fd)),
           ("path+closefd", dict(name=p, closefd=False)), ("new path+closefd", dict(name=new, closefd=False)), ("empty", dict(name="")), ("empty bytes", dict(name=b"")),
           ("opener+fileno", dict(fileno=fd, opener=lambda p, f: fd)), ("nul", dict(name=p + "\0")), ("nul bytes", dict(name=p.encode() + b"\0x"))]
    for label, kw in list(res):
        if any(v == fd for k, v in kw.items() if k != "opener"):
            res.append((label + ", descriptor 0", {k: (0 if v == fd and k != "opener" else v) for k, v in kw.items()}))
    for arg in ("name", "fileno", "handle"):
        for v in (-1, -2, -1000, -2 ** 31, -2 ** 63, -2 ** 70, 2 ** 31, 2 ** 31 + fd, 2 ** 32 + fd, 2 ** 63, 2 ** 64 + fd, 2 ** 70, 1023, fd + 0.0, fd + 0.5, "%d" % fd if arg != "name" else ["x"],
                  b"%d" % fd if arg != "name" else 3j, [fd], (fd,), {fd: fd}, object(), 1j, float("nan"), io, lambda: fd, bytearray(b"f"), "f" if arg != "name" else 2.5):
            res.append(("%s=%.30r" % (arg, v), {arg: v}))
    res.append(("name=True", dict(name=True)))
    res.append(("name=False", dict(name=False)))
    for v in (-1, -5, None, "x", 2.5, [fd], 2 ** 70, 1023):
        res.append(("opener returning %r" % (v,), dict(name=p, opener=lambda a, b, v=v: v)))
    return res


def refused(ctx, w):
    devnull = R.open("/dev/null", os.O_RDWR)
    for mode in ("rb", "r+b", "wb", "ab", "x+b", "r", "w", "RB", "RWB", "WEB", "RAB", "WCB", "RNB", "W"):
        for buffering in (None, 0, 3):
            for thread_safe in (True, False):
                for locking in (True, False):
                    w.reset()
                    fd = w.target("rw", "small")
                    for label, kw in bad_targets(w, fd):
                        if label.startswith("opener ret") and mode in ("WEB",):
                            pass
                        if buffering == 0 and mode[-1] not in "bB":
                            continue
                        R.lseek(fd, START, 0)
                        before = w.table()
                        res = None
                        try:
                            with warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                res = rsfile.rsopen(mode=mode, buffering=buffering, locking=locking, timeout=0, thread_safe=thread_safe, **kw)
                        except (ValueError, TypeError, OSError) as e:
                            out = type(e).__name__
                            e.__traceback__ = None
                        except Exception as e:
                            out = "!" + type(e).__name__
                            e.__traceback__ = None
                        ctx.stats.add("executions")
                        ctx.stats.add("transitions")
                        p = None
                        if res is not None:
                            p = "accepted: %r" % res
                            res.close()
                        elif out[0] == "!":
                            p = "raised " + out[1:]
                        elif w.table() != before:
                            p = "descriptor table changed: %s" % sorted(set(before.items()) ^ set(w.table().items()))
                        elif w.content() != CONTENT:
                            p = "file changed"
                        elif R.lseek(fd, 0, 1) != START:
                            p = "position changed"
                        elif sorted(os.listdir(w.dir)) != ["d", "f"]:
                            p = "files created: %s" % os.listdir(w.dir)
                        else:
                            ctx.outcome((label, out))
                        if p:
                            ctx.violation("refuse:" + label[:20], "rsopen(%s, mode=%r, buffering=%s, thread_safe=%s, locking=%s): %s" % (label, mode, buffering, thread_safe, locking, p),
                                          {"refused": 1})
                            return
                    R.close(fd)
    R.close(devnull)


unraisable = []


def prepare(ctx):
    global rsfile
    import sys
    rsfile = core.import_rsfile()
    import rsfile.rsfile_utilities
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value))


def bounds(ctx):
    return {"kinds": len(KINDS), "numbers": 3, "sources": len(SOURCES), "modes": len(STD) + len(ADV), "layers": len(LAYERS), "scripts": len(SCRIPTS), "ends": len(ENDS)}


def run(ctx):
    def job(c, j):
        occupy()
        w = World(c)
        if j == "refused":
            refused(c, w)
        else:
            group(c, w, j)
        c.stats.add("states", len(w.seen))
        R.close(w.hfd)
    ctx.parallel(["refused"] + list(cases(ctx.quick)), job)
    ctx.sample("fd 0, O_RDWR at offset 4, rsopen(fileno=0, 'WEB', closefd=False): write at 4, fd 0 still open")


def replay(ctx, data):
    r = data["replay"]
    occupy()
    w = World(ctx)
    if "refused" in r:
        return refused(ctx, w)
    case = eval(r["case"], {})
    p = one(ctx, w, case)
    if p:
        ctx.violation("replay", "%s: %s" % (case, p), r)
