"""Binary data histories: real streams in lockstep with an array of bytes and one position."""
import array
import itertools
import os

from . import core

_pread, _pwrite, _ftruncate, _open, _close, _fstat = os.pread, os.pwrite, os.ftruncate, os.open, os.close, os.fstat

ANY = ("any",)


class Deny(Exception):
    """the model forbids the call (any OSError / ValueError is accepted, nothing may change)"""


class Model:
    def __init__(self, data, r, w, a):
        self.data = bytearray(data)
        self.r, self.w, self.a = r, w, a
        self.pos = len(data) if a else 0
        self.closed = False
        self.fuzzy_tell = False        # position unknown until flushed (buffered append writes)

    def need(self, what):
        if self.closed:
            raise Deny("closed")
        if not getattr(self, what):
            raise Deny(what)

    def read(self, n):
        self.need("r")
        self.fuzzy_tell = False
        d = bytes(self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def readline(self, n=-1):
        self.need("r")
        self.fuzzy_tell = False
        rest = bytes(self.data[self.pos:])
        i = rest.find(b"\n")
        line = rest if i < 0 else rest[:i + 1]
        if n is not None and n >= 0:
            line = line[:n]
        self.pos += len(line)
        return line

    def write(self, b):
        self.need("w")
        if not b:
            return 0
        if self.a:
            self.pos = len(self.data)
        if self.pos > len(self.data):
            self.data.extend(bytes(self.pos - len(self.data)))
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, off, whence):
        if self.closed:
            raise Deny("closed")
        new = off + (0, self.pos, len(self.data))[whence]
        if new < 0:
            raise Deny("negative")
        self.pos = new
        self.fuzzy_tell = False
        return new

    def tell(self):
        if self.closed:
            raise Deny("closed")
        return ANY if self.fuzzy_tell else self.pos

    def truncate(self, n):
        self.need("w")
        self.fuzzy_tell = False
        if n is None:
            n = self.pos
        if n < 0:
            raise Deny("negative")
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data.extend(bytes(n - len(self.data)))
        return n

    def size(self):
        if self.closed:
            raise Deny("closed")
        self.fuzzy_tell = False
        return len(self.data)


def payload(step, n, nl=False):
    s = bytes(65 + (step * 5 + i) % 26 for i in range(n))
    return s[:-1] + b"\n" if nl and n else s


SRC = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview,
       "array": lambda b: array.array("H", b if len(b) % 2 == 0 else b + b"!"), "view2": lambda b: memoryview(bytearray(b"-" + b))[1:]}


class Config:
    def __init__(self, name, mode, buffering, safe=False, initial=b"ab\ncd\nefg", inode="path", layer=None, base=0):
        self.base = base               # the model's position 0 is that position of the (sparse) file
        self.name, self.mode, self.buffering, self.safe, self.initial, self.inode = name, mode, buffering, safe, initial, inode
        self.layer = layer
        self.raw = buffering == 0


class Shifted:
    """a stream seen from a far position of its file"""

    def __init__(self, st, base):
        self.st, self.base = st, base

    def __getattr__(self, name):
        return getattr(self.st, name)

    def __iter__(self):
        return iter(self.st)

    def seek(self, off, whence=0):
        return self.st.seek(off + (0 if whence else self.base), whence) - self.base

    def tell(self):
        return self.st.tell() - self.base

    def size(self):
        return self.st.size() - self.base

    def truncate(self, size=None, **kw):
        return self.st.truncate(size if size is None else size + self.base, **kw) - self.base


class Runner:
    def __init__(self, ctx, rsfile, cfg):
        self.ctx, self.rsfile, self.cfg = ctx, rsfile, cfg
        self.path = os.path.join(ctx.scratch, "data")
        self.hfd = _open(self.path, os.O_RDWR | os.O_CREAT, 0o666)
        self.post = None               # extra oracle after each step: f(runner) -> problem or None

    def done(self):
        _close(self.hfd)

    def content(self):
        base = self.cfg.base
        if base and _pread(self.hfd, 64, 0).strip(b"\0") + _pread(self.hfd, 64, base - 64).strip(b"\0"):
            return b"misplaced bytes"
        return _pread(self.hfd, 1 << 20, base)

    def begin(self):
        _ftruncate(self.hfd, 0)
        if self.cfg.initial:
            _pwrite(self.hfd, self.cfg.initial, self.cfg.base)
        c = self.cfg
        self.model = Model(c.initial, "R" in c.mode, "W" in c.mode or "A" in c.mode, "A" in c.mode)
        if "E" in c.mode:
            self.model.data = bytearray()
            self.model.pos = 0
        self.st = self.start()

    def start(self):
        st = self.open()
        if self.cfg.base:
            st = Shifted(st, self.cfg.base)
            if not self.model.a:
                self.model.pos = st.seek(6)
        return st

    def open(self):
        c = self.cfg
        kw = {}
        if not c.safe:
            kw["thread_safe"] = False
        if c.inode == "fileno":
            fd = _open(self.path, os.O_RDWR | (os.O_APPEND if "A" in c.mode else 0))
            return self.rsfile.rsopen(None, c.mode, buffering=c.buffering, fileno=fd, locking=False, **kw)
        if c.inode == "handle":
            fd = _open(self.path, os.O_RDWR | (os.O_APPEND if "A" in c.mode else 0))
            return self.rsfile.rsopen(None, c.mode, buffering=c.buffering, handle=fd, locking=False, **kw)
        return self.rsfile.rsopen(self.path, c.mode, buffering=c.buffering, locking=False, **kw)

    # each returns (expected, observed); the model raises Deny for forbidden calls
    def op(self, step, op):
        m, st, name = self.model, self.st, op[0]
        if name == "read":
            return (lambda: m.read(op[1])), (lambda: st.read(op[1]) if op[1] != "none" else st.read(None))
        if name == "readdef":
            return (lambda: m.read(-1)), (lambda: st.read())
        if name == "readall":
            return (lambda: m.read(-1)), (lambda: st.readall())
        if name in ("readinto", "readinto1"):
            n = op[1]
            kind = op[2] if len(op) > 2 else "bytearray"

            def doit():
                buf = bytearray(b"#" * n)
                if kind == "array":
                    target = array.array("B", buf)
                elif kind == "view":
                    target = memoryview(buf)
                elif kind == "arrayH":
                    target = array.array("H", buf)
                else:
                    target = buf
                k = getattr(st, name)(target)
                out = bytes(target) if kind != "arrayH" and kind != "array" else target.tobytes()
                if name == "readinto1":
                    return ("partial", k, out)
                return (k, out)

            def exp():
                if name == "readinto1":
                    m.need("r")
                    return ("rest", bytes(m.data[m.pos:m.pos + n]), n)
                d = m.read(n)
                return (len(d), d + b"#" * (n - len(d)))
            return exp, doit
        if name in ("read1", "peek"):
            def exp():
                m.need("r")
                return ("rest", bytes(m.data[m.pos:]), op[1])
            return exp, (lambda: ("partial", getattr(st, name)(op[1])))
        if name == "readline":
            return (lambda: m.readline(op[1])), (lambda: st.readline(op[1]))
        if name == "readlines":
            def exp():
                m.need("r")
                res = []
                while True:
                    l = m.readline()
                    if not l:
                        return res
                    res.append(l)
            return exp, (lambda: st.readlines())
        if name == "next":
            def exp():
                return m.readline() or "stop"

            def doit():
                try:
                    return next(iter(st))
                except StopIteration:
                    return "stop"
            return exp, doit
        if name in ("write", "writelines"):
            kind = op[2] if len(op) > 2 else "bytes"
            data = payload(step, op[1])
            if kind == "nl":
                data, kind = payload(step, op[1], True), "bytes"
            src = SRC[kind](data)
            nb = memoryview(src).nbytes
            real = bytes(memoryview(src).cast("B")) if nb else b""

            def exp():
                was = m.fuzzy_tell
                r = m.write(real)
                m.fuzzy_tell = was or (m.a and not self.cfg.raw and nb > 0)
                return r if name == "write" else None

            def doit():
                if name == "write":
                    r = st.write(src)
                else:
                    r = st.writelines([src])
                if isinstance(src, bytearray) and len(src):
                    src[0] = 33          # the caller may reuse its buffer at once
                return r
            return exp, doit
        if name == "seek":
            if len(op) == 2:
                return (lambda: m.seek(op[1], 0)), (lambda: st.seek(op[1]))
            return (lambda: m.seek(op[1], op[2])), (lambda: st.seek(op[1], op[2]))
        if name == "tell":
            return m.tell, st.tell
        if name == "truncate":
            if op[1] is None:
                return (lambda: m.truncate(None)), (lambda: st.truncate())
            if len(op) > 2:
                return (lambda: m.truncate(op[1])), (lambda: st.truncate(op[1], zero_fill=op[2]))
            return (lambda: m.truncate(op[1])), (lambda: st.truncate(op[1]))
        if name == "size":
            return m.size, st.size
        if name == "flush":
            def exp():
                if m.closed:
                    raise Deny("closed")
                m.fuzzy_tell = False
            return exp, st.flush
        if name == "sync":
            def exp():
                if m.closed:
                    raise Deny("closed")
                m.fuzzy_tell = False
            return exp, st.sync
        if name == "close":
            def exp():
                m.closed = True
            return exp, st.close
        if name == "reopen":
            def exp():
                m.closed = False
                m.pos = len(m.data) if m.a else 6 if self.cfg.base else 0
                m.fuzzy_tell = False

            def doit():
                st.close()
                self.st = self.start()
            return exp, doit
        if name == "eof":
            return (lambda: (m.seek(0, 2), None)[1]), (lambda: (st.seek(0, 2), None)[1])
        if name == "foreign":
            return (lambda: self.foreign_model(op)), (lambda: self.foreign_real(op, step))
        raise core.HarnessError(op)

    def match(self, exp, got):
        if exp is ANY:
            return None
        if isinstance(exp, tuple) and exp and exp[0] == "rest":
            rest, n = exp[1], exp[2]
            if got[0] != "partial":
                return "got %r" % (got,)
            if len(got) == 3:      # readinto1
                k, out = got[1], got[2]
                ok = rest.startswith(out[:k]) and out[k:] == b"#" * (n - k) and (k > 0 or not rest or n == 0)
                if ok:
                    self.model.pos += k
                    self.model.fuzzy_tell = False
                    return None
                return "got %r, remaining bytes are %r" % (got, rest)
            out = got[1]
            return None if rest.startswith(out) and (out or not rest or n == 0) else "got %r, remaining bytes are %r" % (out, rest)
        if exp != got or (type(exp) is not type(got) and not isinstance(got, type(exp))):
            return "expected %r, got %r" % (exp, got)
        return None

    def step(self, i, op):
        e, d = self.op(i, op)
        try:
            exp = e()
            denied = None
        except Deny as x:
            denied = x
        try:
            got = d()
            err = None
        except (OSError, ValueError, TypeError, AssertionError, AttributeError, RuntimeError, IndexError, KeyError,
                OverflowError, BufferError, UnboundLocalError) as x:
            err = x
        if denied is not None:
            if err is None:
                return "forbidden call (%s) returned %r" % (denied, got)
            if not isinstance(err, (OSError, ValueError)):
                return "forbidden call (%s) raised %r" % (denied, err)
            return None
        if err is not None:
            return "raised %r, expected %r" % (err, exp)
        r = self.match(exp, got)
        if r is None and op[0] == "read1":
            self.model.pos += len(got[1])
            if op[1] is not None and op[1] >= 0 and len(got[1]) > op[1]:
                return "read1(%r) returned %d bytes" % (op[1], len(got[1]))
        if r is not None:
            return r
        if (self.cfg.raw or op[0] in ("flush", "size", "truncate", "sync", "close", "reopen")) and (self.cfg.raw or not denied):
            if bytes(self.model.data) != self.content():
                return "file contains %r instead of %r" % (self.content(), bytes(self.model.data))
        if self.post is not None:
            return self.post(self)
        return None

    def run(self, history):
        """None, or (index of the failing step, problem)"""
        self.begin()
        try:
            for i, op in enumerate(history):
                p = self.step(i, op)
                if p:
                    return i, p
            # final observation
            if not self.model.closed:
                n = len(history)
                for op in (("tell",), ("size",), ("close",)):
                    p = self.step(n, op)
                    if p:
                        return n, "at the end, %s: %s" % (op[0], p)
            if bytes(self.model.data) != self.content():
                return len(history), "file contains %r instead of %r" % (self.content(), bytes(self.model.data))
            return None
        finally:
            try:
                self.st.close()
            except Exception:
                pass


# far from the beginning of the file; no operation leads below the model's position 0 in three steps
FAR = [2 ** 31 - 12, 2 ** 32 - 12, 2 ** 40]
FAR_INITIAL = b"0123456ab\ncd\nefg"
FAR_OPS = [("read", 4), ("read", -1), ("readline", -1), ("write", 3), ("write", 6), ("seek", 6), ("seek", 12), ("seek", 20), ("seek", -1, 1), ("seek", -2, 2),
           ("seek", 3, 2), ("tell",), ("size",), ("truncate", None), ("truncate", 7), ("truncate", 22), ("flush",)]


def applicable(cfg, op):
    if op[0] in ("readall",):
        return cfg.raw
    if op[0] in ("read1", "peek", "readinto1"):
        return not cfg.raw and "R" in cfg.mode
    return True


def explore(ctx, rsfile, cfg, alphabet, depth, first=(), label=None, setup=None):
    """every history of exactly `depth` operations starting with `first` (shorter ones are their prefixes)"""
    alphabet = [op for op in alphabet if applicable(cfg, op)]
    r = Runner(ctx, rsfile, cfg)
    if setup:
        setup(r)
    seen = set()
    states = set()
    for tail in itertools.product(alphabet, repeat=depth - len(first)):
        h = tuple(first) + tail
        res = r.run(h)
        ctx.stats.add("executions")
        ctx.stats.add("transitions", len(h))
        if res:
            i, p = res
            h2 = h[:i + 1]
            key = "%s:%s" % (label or cfg.name, h[i][0] if i < len(h) else "end")
            if (h2, key) in seen:
                continue
            seen.add((h2, key))
            ctx.violation(key, "config %s (mode %s, buffering %s): after %s: %s" % (cfg.name, cfg.mode, cfg.buffering, fmt(h2), p),
                          {"config": cfg.name, "history": [list(o) for o in h2]})
        else:
            states.add((bytes(r.model.data), r.model.pos))
    r.done()
    ctx.stats.add("states", len(states))
    ctx.stats.add("nontrivial", len(states))
    for s in itertools.islice(states, 50):
        ctx.outcome(s)


def fmt(h):
    return " ; ".join("%s(%s)" % (o[0], ",".join(map(repr, o[1:]))) for o in h)
