"""P21: the replacement of open() and of the io classes against the standard ones, over products of arguments."""
import builtins
import codecs
import errno
import fcntl
import gc
import io
import itertools
import os
import pathlib
import stat
import types
import warnings

import _pyio

from .. import core, klock

LEVEL = "model_checking"
RULE = ("full products of argument domains; each combination is given to the standard implementation (C and pure python) and to the replacement on identical directories, "
        "then the same script of calls is run on the streams; whether it is accepted, every attribute, every result, the file after each call and the descriptor table "
        "are compared; a state is a distinct (acceptance, observations)")
ASSUMPTIONS = ["where the C and the pure python standard implementations differ, both behaviours are accepted",
               "booleans given as integers, and None as buffering, are outside: the library documents its own rules for them",
               "devices are considered as not seekable by the library", "rsopen() documents its own permissions for new files",
               "when several arguments are wrong, any of the faults may be reported", "a refused opening may also leave the file alone where the standard one damages it"]

TEXT = b"l1\r\nl2\nl3 \xc3\xa9\rend"
STD = dict(io_open=io.open, py_open=_pyio.open)
C_CLASSES = {n: getattr(io, n) for n in ("FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper")}
PY_CLASSES = {n: getattr(_pyio, n) for n in ("FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper")}


class PL:
    def __init__(self, v):
        self.v = v

    def __fspath__(self):
        return self.v


class Boom(Exception):
    pass


NAMES = ["str", "missing", "nodir", "dir", "bytes", "bytes-missing", "path", "path-missing", "pl-bytes", "pl-int", "surrogate", "accent", "empty", "empty-bytes", "nul", "nul-bytes", "slash", "long",
         "dangling", "symlink", "null", "full", "fd-rw", "fd-ro", "fd-wo", "fd-dir", "fd-pipe-r", "fd-pipe-w", "fd-pty", "fd-closed", "fd-neg", "fd-huge", "float", "none", "list",
         "object", "bytearray"]
MODES = [a + b + c for a in ("r", "w", "a", "x") for b in ("", "+") for c in ("", "b", "t")] + \
        ["", "b", "+", "rw", "rr", "rbt", "q", "R ", "r ", "rU", "Ur", "br+", "+rb", "+", "wx", "rb+b", "t", "\x00", "é", "ra", "ax", "bw+", "t+w"]
BADMODES = [None, 5, b"r", ["r"]]
BUFS = [-1, 0, 1, 2, 7, 8192, -7, "x", 1.5, None]
ENCS = [None, "utf-8", "ascii", "latin-1", "utf-16", "utf-8-sig", "nosuch", "", "a\0b", 5, "hex", b"utf-8", "UTF8"]
ERRS = [None, "strict", "replace", "ignore", "surrogateescape", "nosuch", "", "a\0b", 5]
NEWLINES = [None, "", "\n", "\r", "\r\n", "x", "\n\n", "\r\n\n", b"\n", 5]
CLOSEFDS = [True, False, 0, 1]
OPENERS = [None, "good", "cloexec-off", "dup-ro", "neg", "neg2", "str", "none", "raises", "notcallable"]
STYLES = ["positional", "keyword", "short"]
DEFAULTS = ("r", -1, None, None, None, True, None)
KEYS = ("mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")
BAD_FD = 999


class World:
    """identical directories for the two standard implementations and ours"""

    def __init__(self, ctx, who):
        self.root = os.path.join(ctx.scratch, "p21", who)
        os.makedirs(os.path.join(self.root, "d"))
        self.keep = []
        os.symlink("missing", self.p("dangling"))
        os.symlink("f", self.p("symlink"))
        self.base = {"d", "dangling", "symlink", "f"}
        self.reset()

    loose = False

    def p(self, n):
        return os.path.join(self.root, n)

    def reset(self):
        for n in set(os.listdir(self.root)) - self.base:
            os.unlink(self.p(n))
        fd = os.open(self.p("f"), os.O_RDWR | os.O_CREAT, 0o666)
        if os.pread(fd, 999, 0) != TEXT:
            os.ftruncate(fd, 0)
            os.pwrite(fd, TEXT, 0)
        os.close(fd)

    def files(self):
        out = []
        perm = 0o666 if self.loose else 0o777
        for n in sorted(os.listdir(self.root)):
            q = self.p(n)
            if n == "d" or os.path.islink(q):
                continue
            g = os.open(q, os.O_RDONLY)
            out.append((n, os.pread(g, 9999, 0), os.fstat(g).st_mode & perm))
            os.close(g)
        return out

    def locks(self):
        """those another process would see"""
        out = []
        for n in ("f", "missing"):
            if os.path.exists(self.p(n)):
                other = klock.Foreign(self.p(n))
                out.append(other.seen(0, None))
                other.close()
        return out

    def name(self, kind):
        """(argument, extra descriptors, descriptor to be wrapped)"""
        p = self.p
        simple = {"str": p("f"), "missing": p("missing"), "nodir": p("nodir/x"), "dir": p("d"), "bytes": os.fsencode(p("f")), "bytes-missing": os.fsencode(p("missing")),
                  "path": pathlib.Path(p("f")), "path-missing": pathlib.Path(p("missing")), "pl-bytes": PL(os.fsencode(p("f"))), "pl-int": PL(5),
                  "surrogate": p("caf\udce9"), "accent": p("caf\xe9"), "empty": "", "empty-bytes": b"", "nul": p("f") + "\0x", "nul-bytes": os.fsencode(p("f")) + b"\0", "slash": p("f/"), "long": p("x" * 300),
                  "dangling": p("dangling"), "symlink": p("symlink"), "null": "/dev/null", "full": "/dev/full", "fd-closed": BAD_FD, "fd-neg": -1, "fd-huge": 1 << 40,
                  "float": 1.5, "none": None, "list": [p("f")], "object": object(), "bytearray": bytearray(os.fsencode(p("f")))}
        if kind in simple:
            return simple[kind], [], None
        if kind == "fd-dir":
            fd = os.open(p("d"), os.O_RDONLY)
            return fd, [], fd
        if kind.startswith("fd-pipe"):
            r, w = os.pipe()
            if kind == "fd-pipe-r":
                os.write(w, b"ab\r\ncdefgh")
                os.close(w)
                return r, [], r
            return w, [r], w
        if kind == "fd-pty":
            m, s = os.openpty()
            return s, [m], s
        flags = {"fd-rw": os.O_RDWR, "fd-ro": os.O_RDONLY, "fd-wo": os.O_WRONLY}[kind]
        fd = os.open(p("f"), flags)
        return fd, [], fd

    def opener(self, kind, log):
        if kind is None or kind == "notcallable":
            return kind and 5

        def op(path, flags):
            log.append((norm(self, path), flags & ~os.O_CLOEXEC, bool(flags & os.O_CLOEXEC)))
            if kind in ("good", "cloexec-off"):
                if not isinstance(path, (str, bytes)):
                    raise Boom
                fd = os.open(path, flags, 0o600)
                if kind == "cloexec-off":
                    os.set_inheritable(fd, True)
                return fd
            if kind == "dup-ro":
                return os.open(self.p("f"), os.O_RDONLY)
            if kind == "raises":
                raise Boom
            return {"neg": -1, "neg2": -7, "str": "x", "none": None}[kind]

        return op


def norm(w, v, fd=None):
    if isinstance(v, str):
        return v.replace(w.root, "<>")
    if isinstance(v, bytes):
        return v.replace(os.fsencode(w.root), b"<>")
    if isinstance(v, pathlib.PurePath):
        return "path:" + str(v).replace(w.root, "<>")
    if isinstance(v, PL):
        return "PL", norm(w, v.v)
    if isinstance(v, int) and not isinstance(v, bool) and fd is not None and v == fd:
        return "FD"
    return v


KINDS_OF_ERRORS = (Boom, OverflowError, LookupError, UnicodeError, ValueError, TypeError, AttributeError, AssertionError, EOFError, RuntimeError)


def excinfo(e):
    """what must be compatible: a set of acceptable facts"""
    if isinstance(e, io.UnsupportedOperation):
        return frozenset(["unsupported"])
    if isinstance(e, OSError):
        return frozenset([type(e).__mro__[0].__name__ if type(e).__mro__[0].__module__ == "builtins" else "OSError", errno.errorcode.get(e.errno, e.errno)])
    out = [c.__name__ for c in KINDS_OF_ERRORS if isinstance(e, c)]
    return frozenset(out or [type(e).__name__])


def compatible(std, ours):
    """ours may be caught by whatever catches the standard one"""
    if "unsupported" in ours:
        return std == ours or bool(std & {"ValueError", "OSError"})
    if "unsupported" in std:
        return False
    if "OverflowError" in std:
        std = frozenset(["ValueError"]) if "OverflowError" not in ours else std
    return std <= ours or (len(std) > 1 and "ValueError" in std and std - {"ValueError"} <= ours)


def fds():
    out = set()
    for n in os.listdir("/proc/self/fd"):
        try:
            os.fstat(int(n))
            out.add(n)
        except OSError:
            pass            # that of the listing itself
    return out


class Run:
    """one implementation on one combination: either .error or .obs, and the damage"""

    def __init__(self, w, construct, script=True, fd_of=None):
        self.w, self.obs, self.error, self.warned = w, [], None, []
        self.stream = None
        self.before = w.files()

    def step(self, key, f):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = f()
            if isinstance(v, (io.IOBase, _pyio.IOBase)):
                v = "<stream>"
            self.obs.append((key, "ok", v))
        except Exception as e:
            info = excinfo(e)
            e.__traceback__ = None
            self.obs.append((key, "raises", info))


ATTRS = ["mode", "encoding", "errors", "line_buffering", "write_through", "newlines", "closed", "closefd"]


def observe(run, s, wrapped, isclass):
    """attributes, then the script"""
    w = run.w
    step = run.step
    step("layers", lambda: tuple(isinstance(s, c) for c in (io.RawIOBase, io.BufferedIOBase, io.TextIOBase, io.IOBase)) if isclass else None)
    try:
        fd = s.fileno()
    except Exception:
        fd = None
    try:
        device = fd is not None and stat.S_ISCHR(os.fstat(fd).st_mode)
    except OSError:
        device = False
    for m in ("readable", "writable", "isatty") + (() if device else ("seekable",)):
        step(m, getattr(s, m, None) or (lambda: "absent"))
    step("name", lambda: norm(w, s.name, fd))
    raw = s
    for a in ("buffer", "raw"):
        raw = getattr(raw, a, raw) if isclass else raw
    if isclass:
        step("layer names", lambda: (norm(w, raw.name, fd), raw.mode, raw.closefd))
    for a in ATTRS:
        step(a, lambda: getattr(s, a, "absent"))
    if fd is not None:
        step("fd flags", lambda: (fcntl.fcntl(fd, fcntl.F_GETFL) & (os.O_ACCMODE | os.O_APPEND | os.O_NONBLOCK), fcntl.fcntl(fd, fcntl.F_GETFD), fd == wrapped))
    step("locks", lambda: w.locks() if isclass else None)
    text = isinstance(s, (io.TextIOBase, _pyio.TextIOBase)) or getattr(s, "encoding", None) is not None
    enc = (lambda t: t) if text else (lambda t: t.encode())
    readable = writable = False
    try:
        readable, writable, seekable = s.readable(), s.writable(), s.seekable()
    except Exception:
        seekable = False
    files = lambda: w.files()
    seekable = seekable and not device
    step("tell0", s.tell) if seekable else None
    if not seekable:
        if readable and not writable and not (fd is not None and os.isatty(fd)):
            step("pipe read", lambda: s.read(3))
            if not device:
                step("pipe rest", lambda: s.read(100))
        if writable:
            step("pipe write", lambda: s.write(enc("p\nq")))
            step("pipe flush", s.flush)
        if not readable:
            step("unreadable", lambda: s.read(1))
        if not writable:
            step("unwritable", lambda: s.write(enc("x")))
    else:
        if readable:
            step("read", lambda: s.read(4))
            step("readline", s.readline)
            step("newlines", lambda: getattr(s, "newlines", "absent"))
            step("rest", lambda: s.read())
            step("newlines", lambda: getattr(s, "newlines", "absent"))
            step("seek", lambda: s.seek(0))
            step("lines", lambda: list(s) if isclass else None)
        else:
            step("read", lambda: s.read(4))
        if writable:
            step("seek", lambda: s.seek(0, 2))
            step("write", lambda: s.write(enc("A\nB")))
            step("after write", files)
            step("flush", s.flush)
            step("after flush", files)
            step("write2", lambda: s.write(enc("zz\n")))
            step("after write2", files)
            step("seek", lambda: s.seek(0))
            step("write3", lambda: s.write(enc("Q")))
            step("truncate", lambda: s.truncate(5))
        else:
            step("write", lambda: s.write(enc("A")))
            step("truncate", lambda: s.truncate(2))
        step("bad type", lambda: s.write(5))
        step("wrong type", lambda: s.write(b"x" if text else "x"))
        step("writelines", lambda: s.writelines([enc("y\n"), enc("z")]) if isclass else None)
    step("close", s.close)
    step("after close", files)
    step("closed", lambda: s.closed)
    step("again", s.close)
    for m, a in (("read", ()), ("write", (enc("x"),)), ("fileno", ()), ("flush", ()), ("tell", ()), ("readable", ()), ("__enter__", ()), ("truncate", ())):
        if isclass or m not in ("__enter__",):
            step("closed " + m, lambda: getattr(s, m)(*a))


def execute(w, function, kind, args, style, opener_kind, isclass, maker=None):
    """runs one implementation; returns (accepted?, error info, observations, files, warnings, leaked, opener log)"""
    w.reset()
    name, extra, wrapped = w.name(kind)
    log = []
    opener = w.opener(opener_kind, log)
    run = Run(w, None)
    before = fds()
    with warnings.catch_warnings(record=True) as wlist:
        warnings.simplefilter("always")
        try:
            if maker is not None:
                s = maker(w, function, name, args, opener)
            else:
                full = args + (opener,)
                if style == "positional":
                    s = function(name, *full)
                elif style == "keyword":
                    s = function(file=name, **dict(zip(KEYS, full)))
                else:
                    s = function(name, **{k: v for k, v, d in zip(KEYS, full, DEFAULTS) if v is not d})
            err = None
        except Exception as e:
            err = excinfo(e)
            e.__traceback__ = None
            text = "%s: %s" % (type(e).__name__, e)
            e = None
    warned = sorted({x.category.__name__ for x in wlist if x.category is not ResourceWarning})
    if err is not None:
        gone = fds() ^ before
        if wrapped is not None:
            gone.discard(str(wrapped))
        files = w.files()
        out = (False, err, text, files, warned, gone, log)
    else:
        observe(run, s, wrapped, isclass)
        s = None
        after = fds()
        gone = after ^ before
        closed = wrapped is not None and str(wrapped) not in after
        gone.discard(str(wrapped))
        run.obs.append(("wrapped descriptor closed", "ok", closed))
        out = (True, None, run.obs, w.files(), warned, gone, log)
    run.stream = s = None
    for fd in extra + ([wrapped] if wrapped is not None else []):
        try:
            os.close(fd)
        except OSError:
            pass
    left = fds() - (before - {str(x) for x in extra + [wrapped]})
    for fd in left:
        try:
            if int(fd) > 2:
                os.close(int(fd))
        except OSError:
            pass
    return out


def judge(c, p, o, w_before, kind=""):
    """None or what is wrong with ours"""
    if kind in ("null", "full") and not o[0] and "unsupported" in o[1]:
        return None         # devices are not seekable for this library
    std = [x for x in (c, p) if x is not None]
    if not any(x[0] == o[0] for x in std):
        return "accepted, but the standard one refuses it with %s" % std[0][2] if o[0] else "refused with %s, but the standard one accepts it" % o[2]
    if not o[0]:
        refused = [x for x in std if not x[0]]
        if not any(compatible(x[1], o[1]) for x in refused):
            return "refused with %s instead of %s" % (o[2], refused[0][2])
        if o[3] != w_before and not any(o[3] == x[3] for x in refused):
            return "refused, with the files left as %s" % (o[3],)
        if o[5]:
            return "refused, with descriptors %s leaked or closed" % sorted(o[5])
        return None
    acc = [x for x in std if x[0]]
    for i, (key, what, value) in enumerate(o[2]):
        ok = False
        for x in acc:
            if i < len(x[2]):
                k2, w2, v2 = x[2][i]
                if k2 == key and v2 == "absent":
                    ok = True           # an additional attribute
                if k2 == key and w2 == what and (v2 == value and type(v2) is type(value) if what == "ok" else compatible(v2, value)):
                    ok = True
        if not ok:
            ref = acc[0][2][i] if i < len(acc[0][2]) else None
            if ref is None or ref[0] != key:
                return "step %s is not reached by the standard one" % key
            if what == "raises" and ref[1] == "raises":
                return "%s raises %s instead of %s" % (key, sorted(map(str, value)), sorted(map(str, ref[2])))
            return "%s %s %r instead of %s %r" % (key, "gives" if what == "ok" else what, value if what == "ok" else sorted(map(str, value)), "giving" if ref[1] == "ok" else ref[1], ref[2] if ref[1] == "ok" else sorted(map(str, ref[2])))
    if not any(o[3] == x[3] for x in acc):
        return "the files finally are %s instead of %s" % (o[3], acc[0][3])
    if not any(o[6] == x[6] for x in acc):
        return "the opener is called with %s instead of %s" % (o[6], acc[0][6])
    if not any(o[4] == x[4] for x in acc):
        return "warnings %s instead of %s" % (o[4], acc[0][4])
    if o[5]:
        return "descriptors %s leaked or closed" % sorted(o[5])
    return None


def lesser(kind, args, defaults, opener):
    """the same combination with some of its arguments made ordinary"""
    yield "str", args, opener
    yield kind, args, None
    yield kind, defaults, None
    yield "str", defaults, opener
    for i in range(len(args)):
        yield kind, args[:i] + (defaults[i],) + args[i + 1:], opener
        yield "str", defaults[:i] + (args[i],) + defaults[i + 1:], None


def exempt(kind, args, opener):
    return args[1] is None            # buffering=None: the default of rsopen()


class Checker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.wc, self.wp, self.wo = (World(ctx, "%s-%d" % (x, os.getpid())) for x in ("c", "p", "o"))
        for x in self.wc, self.wp, self.wo:
            x.reset()
        self.initial = self.wo.files()
        self.cache = {}

    def case(self, kind, args, style, opener, via):
        import rsfile

        ctx = self.ctx
        if exempt(kind, args, opener):
            return
        ctx.stats.add("executions")
        ctx.stats.add("transitions", 3)
        if via == "open":
            f, isclass = rsfile.rsfile_utilities.BUILTIN_OPEN_FUNC_REPLACEMENT, True
            if isinstance(f, staticmethod):
                f = f.__func__
            self.wo.loose = self.wc.loose = self.wp.loose = False
        else:
            self.wo.loose = self.wc.loose = self.wp.loose = True
            f, isclass = (lambda *a, **k: rsfile.rsopen(*a, **k)), False
        c = execute(self.wc, STD["io_open"], kind, args, style, opener, isclass)
        o = execute(self.wo, f, kind, args, style, opener, isclass)
        problem = judge(c, None, o, self.initial, kind)
        if problem:
            p = execute(self.wp, STD["py_open"], kind, args, style, opener, isclass)
            problem = judge(c, p, o, self.initial, kind)
        if problem and not o[0] and " instead of " in problem:
            # several things are wrong at once: any of them may be reported
            for k2, a2, op2 in lesser(kind, args, DEFAULTS[:-1], opener):
                c2 = execute(self.wc, STD["io_open"], k2, a2, "keyword", op2, isclass)
                if not c2[0] and compatible(c2[1], o[1]):
                    problem = None
                    break
        if o[0]:
            ctx.stats.add("nontrivial")
        ctx.outcome((kind.split("-")[0], o[0], str(sorted(map(str, o[1]))) if o[1] else str(o[2][:8])[:200]))
        if problem:
            names = dict(zip(KEYS, args))
            what = ", ".join("%s=%r" % (k, v) for k, v in names.items() if v is not dict(zip(KEYS, DEFAULTS))[k])
            ctx.violation("open(%s; %s; opener=%s; %s; %s)" % (kind, what, opener, style, via), "%s open(<%s>, %s, opener=%s): %s" % (via, kind, what, opener, problem),
                          {"what": "open", "case": [kind, [repr(a) for a in args], style, opener, via]})


def open_cases(group, quick):
    """(kind, args, style, opener, via)"""
    what, x = group
    if what == "opening":
        kind, modes = x
        for mode in modes:
            for buf in (-1, 0, 1, 7):
                for closefd in CLOSEFDS:
                    for opener in OPENERS:
                        if quick and closefd in (0, 1) and closefd is not True and closefd is not False and opener:
                            continue
                        if quick and opener not in (None, "good") and buf in (1, 7):
                            continue
                        yield kind, (mode, buf, None, None, None, closefd), "short", opener, "open"
    elif what == "text":
        kind, mode = x
        for buf, enc, err, nl in itertools.product(BUFS, ENCS, ERRS, NEWLINES):
            if quick:
                odd = (buf not in (-1, 1, 7)) + (enc not in (None, "utf-8", "latin-1", "utf-16")) + (err not in (None, "replace")) + (nl not in (None, "", "\n", "\r", "\r\n"))
                if odd > 1 or odd == 1 and kind != "str":
                    continue
            yield kind, (mode, buf, enc, err, nl, True), "short", None, "open"
    elif what == "style":
        kind, mode = x
        for style in STYLES:
            for buf, enc, nl, closefd, opener in itertools.product((-1, 7), (None, "latin-1"), (None, "\n"), (True, False), (None, "good")):
                yield kind, (mode, buf, enc, None, nl, closefd), style, opener, "open"
    elif what == "badmode":
        for mode in BADMODES:
            yield x, (mode, -1, None, None, None, True), "short", None, "open"
    else:
        kind, mode = x
        for buf, enc, nl in itertools.product((-1, 1, 7), (None, "utf-8"), (None, "\r\n")):
            yield kind, (mode, buf, enc, None, nl, True), "short", None, "rsopen"


def groups(quick):
    out = []
    for kind in NAMES:
        for i in range(0, len(MODES), 8):
            out.append(("opening", (kind, MODES[i:i + 8])))
        out.append(("badmode", kind))
    for kind in ("str", "missing", "fd-rw") + (() if quick else ("fd-pipe-r", "fd-pipe-w", "symlink", "dir")):
        for mode in ("r", "rb", "w", "w+", "r+", "a", "a+b", "x"):
            out.append(("text", (kind, mode)))
    for kind in NAMES:
        for mode in ("r", "rb", "w+", "a", "xb"):
            out.append(("style", (kind, mode)))
    for kind in ("str", "missing", "path", "fd-rw", "bytes", "dir", "nul"):
        for mode in MODES:
            out.append(("rsopen", (kind, mode)))
    return out


# -- classes ----------------------------------------------------------------------------------------------------------
RAWS = ["std-r", "std-w", "std-rw", "std-a", "own-r", "own-w", "own-rw", "bytesio", "closed-std", "closed-own", "none", "path", "buffered-std", "pipe-r", "pipe-w"]
SIZES = ["default", 1, 7, 8192, 0, -1, None, "x", 1.5]


def raw_of(w, kind, classes, std):
    p = w.p("f")
    if kind == "none":
        return None
    if kind == "path":
        return p
    if kind == "bytesio":
        return (io if std is C_CLASSES else _pyio).BytesIO(TEXT)
    if kind == "buffered-std":
        return C_CLASSES["BufferedReader"](C_CLASSES["FileIO"](p))
    if kind.startswith("pipe"):
        r, x = os.pipe()
        os.write(x, b"ab\r\ncd")
        if kind == "pipe-r":
            os.close(x)
            return classes["FileIO"](r, "r")
        w.keep.append(r)
        return classes["FileIO"](x, "w")
    which, mode = kind.split("-")
    cls = C_CLASSES["FileIO"] if which == "std" or mode == "std" else classes["FileIO"]
    f = cls(p, {"r": "r", "w": "w", "rw": "r+", "a": "a"}.get(mode, "r+"))
    if which == "closed":
        f.close()
    return f


def class_maker(cls, classes_of):
    def make(w, classes, name, args, opener):
        w.keep = []
        if cls == "FileIO":
            mode, closefd, style = args
            f = classes["FileIO"]
            if style == "min":
                return f(name, mode) if closefd else f(name, mode, closefd)
            if style == "positional":
                return f(name, mode, closefd, opener)
            return f(file=name, mode=mode, closefd=closefd, opener=opener)
        if cls == "TextIOWrapper":
            rawkind, layer, text_args = args
            raw = raw_of(w, rawkind, classes, classes)
            if layer:
                raw = classes[layer](raw)
            kw = {k: v for k, v in zip(("encoding", "errors", "newline", "line_buffering", "write_through"), text_args) if v is not None}
            return classes[cls](raw, **kw)
        rawkind, size, style = args
        raw = raw_of(w, rawkind, classes, classes)
        if size == "default":
            return classes[cls](raw)
        return classes[cls](raw=raw, buffer_size=size) if style == "keyword" else classes[cls](raw, size)

    return make


def class_cases(group, quick):
    cls, x = group
    if cls == "FileIO":
        for mode, closefd, style, opener in itertools.product(MODES, (True, False), ("min", "positional", "keyword"), OPENERS):
            if mode == "rb+b" or style == "min" and opener is not None or quick and style == "keyword" and opener not in (None, "good"):
                continue
            yield x, (mode, closefd, style), opener
    elif cls == "TextIOWrapper":
        rawkind, layer = x
        for t in itertools.product(("utf-8", "latin-1", "ascii", "nosuch", 5) if quick else ENCS, (None, "replace", 5), (None, "", "\n", "\r\n", "x"), (None, True, False), (None, True)):
            yield "none", (rawkind, layer, t), None
    else:
        for size in SIZES:
            for style in ("positional", "keyword"):
                yield "none", (x, size, style), None


def class_groups(quick):
    out = [("FileIO", k) for k in NAMES]
    out += [(c, r) for c in ("BufferedReader", "BufferedWriter", "BufferedRandom") for r in RAWS]
    out += [("TextIOWrapper", (r, l)) for r, l in (("std-r", "BufferedReader"), ("std-w", "BufferedWriter"), ("std-rw", "BufferedRandom"), ("std-a", "BufferedWriter"), ("own-r", "BufferedReader"),
                                                   ("own-w", "BufferedWriter"), ("own-rw", "BufferedRandom"), ("bytesio", None), ("none", None), ("buffered-std", None), ("pipe-r", "BufferedReader"), ("pipe-w", "BufferedWriter"))]
    return out


def our_classes():
    import rsfile

    u = rsfile.rsfile_utilities
    return {"FileIO": u.RSFileIOWrapper, "BufferedReader": u.RSBufferedReader, "BufferedWriter": u.RSBufferedWriter, "BufferedRandom": u.RSBufferedRandom, "TextIOWrapper": u.RSTextIOWrapper}


def class_case(k, cls, kind, args, opener):
    ctx = k.ctx
    ctx.stats.add("executions")
    ctx.stats.add("transitions", 3)
    make = class_maker(cls, None)

    def go(w, classes):
        out = execute(w, classes, kind, args, None, opener, True, make)
        for fd in w.keep:
            try:
                os.close(fd)
            except OSError:
                pass
        return out[:5] + (set() if cls != "FileIO" else out[5],) + out[6:]

    c = go(k.wc, C_CLASSES)
    o = go(k.wo, our_classes())
    problem = judge(c, None, o, k.initial, kind)
    if problem:
        problem = judge(c, go(k.wp, PY_CLASSES), o, k.initial, kind)
    if problem and not o[0] and " instead of " in problem and cls == "FileIO":
        for k2, a2, op2 in lesser(kind, args, ("r", True, "keyword"), opener):
            c2 = execute(k.wc, C_CLASSES, k2, a2[:2] + ("keyword",), None, op2, True, make)
            if not c2[0] and compatible(c2[1], o[1]):
                problem = None
                break
    if o[0]:
        ctx.stats.add("nontrivial")
    ctx.outcome((cls, kind.split("-")[0], o[0], str(sorted(map(str, o[1]))) if o[1] else str(o[2][:8])[:200]))
    if problem:
        ctx.violation("%s(%s %r %s)" % (cls, kind, args, opener), "%s %s %r opener=%s: %s" % (cls, kind, args, opener, problem),
                      {"what": cls, "case": [kind, repr(args), opener]})


# -- installation -----------------------------------------------------------------------------------------------------
PATCHED = {"FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper", "open"}


def installation(ctx):
    """patches every module in turn; nothing but the six names may change, and the names must work"""
    import _io
    import sys
    import rsfile

    def snapshot():
        snap = {}
        for m in (io, _io, _pyio, builtins, os, fcntl, codecs):
            snap[m.__name__] = dict(vars(m))
        snap["classes"] = {(m.__name__, n, a): v for m in (io, _pyio) for n, c in vars(m).items() if isinstance(c, type) for a, v in vars(c).items()
                           if not a.startswith("_abc")}
        return snap

    first = snapshot()
    expected = {}
    for target in ("io", "_io", "_pyio", "default", "builtins"):
        if target == "builtins":
            rsfile.monkey_patch_open_builtin()
            expected["builtins"] = {"open"}
        elif target == "default":
            rsfile.monkey_patch_io_module()
            expected["io"] = PATCHED
        else:
            m = {"io": io, "_io": _io, "_pyio": _pyio}[target]
            rsfile.monkey_patch_io_module(m)
            expected[target] = PATCHED
        now = snapshot()
        ctx.stats.add("executions")
        ctx.stats.add("transitions")
        ctx.stats.add("nontrivial")
        for mod in [x for x in now if x != "classes"]:
            changed = {n for n in set(first[mod]) | set(now[mod]) if first[mod].get(n, ctx) is not now[mod].get(n, ctx)} - {"__builtins__", "__annotations__", "_"}
            if changed != expected.get(mod, set()):
                ctx.violation("install %s %s" % (target, mod), "after patching %s, the changed names of module %s are %s instead of %s" % (target, mod, sorted(changed), sorted(expected.get(mod, set()))),
                              {"what": "install"})
        kept = {k: v for k, v in first["classes"].items() if k[1] not in PATCHED}
        diff = [k for k, v in kept.items() if now["classes"].get(k) is not v] + [k for k in now["classes"] if k[1] not in PATCHED and k not in kept]
        if diff:
            ctx.violation("install %s classes" % target, "after patching %s, class attributes changed: %s" % (target, diff[:5]), {"what": "install"})
    # a class whose open() is stored as an attribute, subclassing, and the aliases still work
    d = os.path.join(ctx.scratch, "inst")
    os.makedirs(d)
    p = os.path.join(d, "f")

    class Holder:
        open = io.open

    class Sub(io.FileIO):
        pass

    for how, f in (("io.open", io.open), ("builtin", builtins.open), ("_pyio.open", _pyio.open), ("attribute", Holder.open), ("instance attribute", Holder().open)):
        for mode, data in (("w", "x\n"), ("r", "x\n"), ("ab", b"y"), ("rb", b"x\ny")):
            ctx.stats.add("executions")
            try:
                with f(p, mode) as s:
                    got = s.read() if "r" in mode else s.write(data)
                    if isinstance(s, (rsfile.RSFileIO, rsfile.rsfile_utilities.RSBufferedReader, rsfile.rsfile_utilities.RSBufferedWriter, rsfile.rsfile_utilities.RSTextIOWrapper)) is False:
                        ctx.violation("install type %s" % how, "%s gives a %s" % (how, type(s).__name__), {"what": "install"})
            except Exception as e:
                ctx.violation("install call %s" % how, "%s(path, %r) raises %s: %s" % (how, mode, type(e).__name__, e), {"what": "install"})
                continue
            if "r" in mode and got != data:
                ctx.violation("install read %s" % how, "%s reads %r instead of %r" % (how, got, data), {"what": "install"})
        os.unlink(p) if os.path.exists(p) else None
        open(p, "w").close()
    with Sub(p, "w") as s:
        s.write(b"sub")
    if os.path.getsize(p) != 3 or not isinstance(s, io.RawIOBase):
        ctx.violation("install subclass", "a subclass of the patched FileIO does not write", {"what": "install"})


# ---------------------------------------------------------------------------------------------------------------------
def prepare(ctx):
    core.import_rsfile()
    import resource
    gc.disable()


def bounds(ctx):
    return {"names": len(NAMES), "modes": len(MODES), "buffering": [repr(b) for b in BUFS], "encodings": [repr(b) for b in ENCS], "errors": [repr(b) for b in ERRS], "newlines": [repr(b) for b in NEWLINES],
            "openers": OPENERS, "raw streams": RAWS}


_checker = None


def checker(ctx):
    global _checker
    if _checker is None or _checker[0] != os.getpid():
        _checker = (os.getpid(), Checker(ctx))
    _checker[1].ctx = ctx
    return _checker[1]


def job(ctx, g):
    k = checker(ctx)
    if g[0] == "class":
        for kind, args, opener in class_cases(g[1], ctx.quick):
            class_case(k, g[1][0], kind, args, opener)
    else:
        for case in open_cases(g[1], ctx.quick):
            k.case(*case)


def run(ctx):
    ctx.parallel([("open", g) for g in groups(ctx.quick)] + [("class", g) for g in class_groups(ctx.quick)], job)
    ctx.phase(installation)
    ctx.stats.add("states", len(ctx.stats.get("outcomes", ())))
    ctx.sample({"call": "open('f', 'r+', buffering=7, newline='\\r')"})


def replay(ctx, data):
    k = checker(ctx)
    if data["what"] == "install":
        installation(ctx)
    elif data["what"] == "open":
        kind, args, style, opener, via = data["case"]
        k.case(kind, tuple(eval(a) for a in args), style, opener, via)
    else:
        kind, args, opener = data["case"]
        class_case(k, data["what"], kind, eval(args), opener)
