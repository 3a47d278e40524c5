"""P09: text streams against those of the standard library, over histories of calls."""
import io
import itertools
import os

import _pyio

from .. import core
from .p21 import compatible, excinfo

LEVEL = "model_checking"
RULE = ("every sequence of exactly `depth` calls over an alphabet, on the real text streams and on the standard library's (C, and pure python when they differ), opened the same way on identical files; each result, "
        "and the bytes of the file whenever they must have been written, are compared; a state is a distinct (mode, last results, file) observation")
ASSUMPTIONS = ["where the C and the pure python standard implementations differ, both behaviours are accepted; after a step where these two raise errors, nothing more is compared",
               "locking (after a change made by another program), unlocking, size(), sync() count for the standard stream as a flush, or a seek to the current position",
               "nothing is compared after a truncate() of a stream which has read ahead: which characters it still gives is not specified"]

CONTENTS = {
    "plain": "ab\r\ncd\ref\n\ngh",
    "crs": "\r\r\n\n\rx\r",
    "wide": "a\xe9\u20ac\U0001d11e\r\n\xe9b\n\u20ac",
    "latin": "a\xe9\r\n\xe8b\n\xff",
    "empty": "",
    "japan": "a\u3042\u3044\r\n\u3042b\n",
    "lines": "abcdefgh\nijklmnop\nqrstuvwx\nyz",
}
RAW = {"invalid": b"ab\xffcd\n\xc3", "crlf-end": b"abc\r", "utf16-nobom": "ab\r\nc\n".encode("utf-16-le"), "odd": b"a\x00b\x00\r\x00\n"}

READS = [("read", 1), ("read", 3), ("read", -1), ("readline", -1), ("readline", 2), ("next",), ("lines", 3), ("readlines", -1)]
WRITES = [("write", 0), ("write", 1), ("write", 2), ("writelines",), ("truncate", 4), ("truncate", None), ("flush",)]
MOVES = [("seek", 0), ("end",), ("mark",), ("back",), ("tell",)]
OURS = [("size",), ("lock",), ("unlock",), ("sync",)]
OTHERS = [("newlines",), ("reconf", "line"), ("reconf", "newline"), ("reconf", "errors"), ("reconf", "through"), ("reconf", "encoding"), ("iter",), ("detach",), ("close",)]
TEXTS = ["A", "x\ny", "\u20ac\r\nw\r"]
LATIN = ["A", "x\ny", "\xe9\r\nw\r"]


class Config:
    def __init__(self, mode, content, encoding, errors=None, newline=None, buffering=-1, chunk=None, safe=False, ops=(), depth=3, adv=None):
        self.__dict__.update(mode=mode, content=content, encoding=encoding, errors=errors, newline=newline, buffering=buffering, chunk=chunk, safe=safe, ops=ops, depth=depth, adv=adv)
        wide = encoding.startswith("utf")
        self.texts = TEXTS if wide else LATIN if encoding == "latin-1" else ["A", "x\ny", "zz\r\nw\r"] if encoding == "ascii" else ["A", "x\n\u3042", "\u3044\r\nw\r"]

    @property
    def label(self):
        return "%s %s %s errors=%s newline=%r buffering=%d chunk=%s%s" % (self.adv or self.mode, self.content, self.encoding, self.errors, self.newline, self.buffering, self.chunk,
                                                                        " safe" if self.safe else "")

    def data(self):
        if self.content in RAW:
            return RAW[self.content]
        return CONTENTS[self.content].encode(self.encoding, "replace")


def configs(quick):
    d = 3 if quick else 4
    out = []
    rops, rwops = READS + MOVES, READS[:6:2] + [("readline", 2), ("next",)] + WRITES + MOVES[:4] + [("lock",)]
    wops = WRITES + MOVES[:4] + [("size",), ("lock",), ("read", 1)]
    for enc, content in (("utf-8", "wide"), ("utf-8", "crs"), ("utf-16", "plain"), ("utf-8-sig", "wide"), ("iso2022_jp", "japan"), ("latin-1", "latin"), ("ascii", "plain")):
        for nl in (None, "", "\n", "\r", "\r\n"):
            for chunk in (None, 1, 3):
                if quick and chunk and nl in ("\r", "\n") or chunk == 1 and enc == "utf-8-sig":
                    continue
                out.append(Config("r", content, enc, None, nl, -1 if chunk != 3 else 2, chunk, ops=rops, depth=d))
    for content in ("invalid", "crlf-end", "odd", "utf16-nobom"):
        for enc, err in (("utf-8", "strict"), ("utf-8", "replace"), ("utf-8", "ignore"), ("utf-8", "surrogateescape"), ("ascii", "backslashreplace"), ("utf-16", None), ("utf-16-le", "replace")):
            for nl in (None, ""):
                out.append(Config("r", content, enc, err, nl, -1, 2, ops=rops, depth=d - 1))
    for enc, content in (("utf-8", "wide"), ("utf-16", "plain"), ("utf-8-sig", "wide"), ("ascii", "lines"), ("euc_jp", "japan")):      # in these modes the codec iso2022_jp of CPython may crash
        for mode in ("r+", "w+", "a+"):
            for nl, buf, chunk in ((None, -1, None), ("", 5, 2), ("\r\n", 1, None), ("\r", 3, 4)):
                out.append(Config(mode, content, enc, None, nl, buf, chunk, ops=rwops, depth=d - (quick and enc in ("euc_jp", "utf-8-sig"))))
    for mode in ("w", "a", "x"):
        for enc in ("utf-8", "utf-16", "utf-8-sig", "utf-32", "iso2022_jp"):
            for nl, buf in ((None, -1), ("", 2), ("\r\n", 1)):
                out.append(Config(mode, "plain" if enc != "iso2022_jp" else "japan", enc, None, nl, buf, None, ops=wops, depth=d))
                if mode == "a":
                    out.append(Config(mode, "empty", enc, None, nl, buf, None, ops=wops, depth=d))
    for enc in ("ascii", "latin-1"):
        for err in ("strict", "replace", "ignore", "xmlcharrefreplace", "backslashreplace"):
            c = Config("r+", "plain", enc, err, None, -1, None, ops=wops + READS[:2], depth=d - 1)
            c.texts = ["\u20ac", "x\ny", "\udc80A"]
            out.append(c)
    for mode, buf in (("r+", -1), ("w+", 4), ("a+", -1), ("r", 3)):
        out.append(Config(mode, "plain", "utf-8", None, None, buf, None, ops=OTHERS + READS[:2] + WRITES[1:3] + MOVES[:1] + OURS[:2], depth=d))
    for mode, adv in (("r+", "RWN"), ("r", "RN"), ("w+", "RWE"), ("a+", "RA"), ("w", "WE"), ("a", "A"), ("x+", "RWC")):
        for nl, buf in ((None, -1), ("\r\n", 3)):
            out.append(Config(mode, "wide", "utf-8", None, nl, buf, None, True, rwops[:12] + OURS[:3] + [("close",)], d - 1 if quick else d, adv))
    return out


class World:
    def __init__(self, ctx):
        self.dir = os.path.join(ctx.scratch, "p09-%d" % os.getpid())
        os.makedirs(self.dir)
        self.paths = {w: os.path.join(self.dir, w) for w in ("o", "c", "p")}

    def setup(self, who, cfg, data):
        p = self.paths[who]
        if "x" in cfg.mode or "C" in (cfg.adv or ""):
            if os.path.exists(p):
                os.unlink(p)
            return p
        fd = os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        os.write(fd, data)
        os.close(fd)
        return p

    def bytes(self, who):
        fd = os.open(self.paths[who], os.O_RDONLY)
        try:
            return os.pread(fd, 1 << 16, 0)
        finally:
            os.close(fd)

    def change(self, who):
        fd = os.open(self.paths[who], os.O_RDWR)
        os.pwrite(fd, os.pread(fd, 1 << 16, 0).swapcase(), 0)
        os.close(fd)


def play(w, who, cfg, seq, data, rs):
    """list of observations"""
    p = w.setup(who, cfg, data)
    args = dict(buffering=cfg.buffering, encoding=cfg.encoding, errors=cfg.errors, newline=cfg.newline)
    obs = []
    if who == "o":
        s = rs.rsopen(p, cfg.adv or cfg.mode, thread_safe=cfg.safe, locking=cfg.safe, **args)
        inner = getattr(s, "wrapped_stream", s)
    else:
        s = inner = (io if who == "c" else _pyio).open(p, cfg.mode, **args)
    ours = who == "o"
    if cfg.chunk:
        inner._CHUNK_SIZE = cfg.chunk
    mark, locked, reading = 0, False, False
    writable = cfg.mode != "r"
    for op in seq:
        k = op[0]
        visible = False
        reading = k in ("read", "readline", "next", "lines", "readlines", "iter") or reading and k not in ("seek", "end", "back", "lock")
        try:
            if k == "read":
                v = s.read(op[1])
            elif k == "readline":
                v = s.readline(op[1])
            elif k == "next":
                v = next(s, None)
            elif k == "lines":
                v = s.readlines(op[1])
            elif k == "readlines":
                v = s.readlines()
            elif k == "iter":
                v = [x for x in s]
            elif k == "write":
                v = s.write(cfg.texts[op[1]])
            elif k == "writelines":
                v = s.writelines([cfg.texts[1], cfg.texts[0]])
            elif k == "truncate":
                ahead = 0 if ours else inner.buffer.tell()
                v, visible = s.truncate(op[1]), True
                if ahead > v or reading:
                    k = "cut"
            elif k == "flush":
                v, visible = s.flush(), True
            elif k == "seek":
                v, visible = s.seek(op[1]), True
            elif k == "end":
                v, visible = s.seek(0, 2), True
            elif k == "tell":
                v = s.tell()
            elif k == "mark":
                mark = s.tell()
                v, visible = mark, True
            elif k == "back":
                v = s.seek(mark)
            elif k == "newlines":
                v = (s.newlines, s.encoding, s.errors, s.line_buffering)
            elif k == "reconf":
                kw = {"line": {"line_buffering": True}, "newline": {"newline": "\r\n"}, "errors": {"errors": "replace"}, "through": {"write_through": True}, "encoding": {"encoding": "latin-1"}}[op[1]]
                v, visible = s.reconfigure(**kw), True
            elif k == "detach":
                b = s.detach()
                v = (b.readable(), b.writable(), b.tell())
                b.close()
                visible = True
            elif k == "close":
                v, visible = s.close(), True
            elif k == "size":
                if ours:
                    v = s.size()
                else:
                    s.flush()
                    v = os.stat(p).st_size
                visible = True
            elif k == "sync":
                s.sync() if ours else s.flush()
                v, visible = None, True
            elif k == "lock" or k == "unlock":
                if k == "lock" and not cfg.encoding.endswith("_jp"):
                    w.change(who)       # another program did that: what was read ahead is stale
                if not ours:
                    s.seek(0, 1)
                elif (k == "lock") == bool(cfg.safe):
                    s.seek(0, 1)        # the whole file is locked already, or not locked at all
                elif cfg.safe:
                    s.unlock_file()
                    s.lock_file(timeout=0)
                else:
                    if locked:
                        s.unlock_file()
                    s.lock_file(timeout=0)
                    locked = True
                v, visible = None, True
            obs.append((k, "ok", v, w.bytes(who) if visible and writable else None))
        except Exception as e:
            info = excinfo(e)
            e.__traceback__ = None
            e = None
            obs.append((k, "raises", info, None))
    try:
        s.close()
        obs.append(("close", "ok", s.closed, w.bytes(who)))
    except Exception as e:
        obs.append(("close", "raises", excinfo(e), None))
        e.__traceback__ = None
    s = inner = b = None
    return obs


def same(a, b):
    if a[1] != b[1]:
        return False
    if a[1] == "ok":
        return a[2] == b[2] and type(a[2]) is type(b[2]) and a[3] == b[3]
    return compatible(a[2], b[2])


def check(ctx, w, cfg, seq, data, rs):
    o = play(w, "o", cfg, seq, data, rs)
    c = play(w, "c", cfg, seq, data, rs)
    ctx.stats.add("executions")
    ctx.stats.add("transitions", len(seq) + 1)
    good = all(map(same, c, o))
    if not good:
        p = play(w, "p", cfg, seq, data, rs)
        for i, (x, y, z) in enumerate(zip(c, p, o)):
            if x[1] == "raises" and x[0] in ("lock", "unlock"):
                break               # no position can be told: nothing to compare with
            if not (same(x, z) or same(y, z)):
                ctx.violation("%s %s" % (cfg.label, " ".join(map(str, seq[:i + 1]))), "%s, %s: %s, step %d (%s) %s where the standard library %s" %
                              (cfg.label, data, " ".join("%s%s" % (s[0], s[1:]) for s in seq), i, z[0], show(z), show(x)), {"label": cfg.label, "seq": [list(s) for s in seq]})
                break
            if x[1] == y[1] == "raises" and not x[2] & {"unsupported"} or "cut" in (x[0], y[0]):
                break
    return o


def show(x):
    return "%s %r%s" % ("gives" if x[1] == "ok" else "raises", x[2] if x[1] == "ok" else sorted(map(str, x[2])), "" if x[3] is None else " leaving %r" % (x[3],))


def prepare(ctx):
    core.import_rsfile()


def bounds(ctx):
    c = configs(ctx.quick)
    return {"configurations": len(c), "depths": sorted({x.depth for x in c}), "alphabet_sizes": sorted({len(x.ops) for x in c}), "contents": sorted(CONTENTS) + sorted(RAW)}


_world = None


def job(ctx, x):
    global _world
    import rsfile

    i, first = x
    if _world is None or _world[0] != os.getpid():
        _world = (os.getpid(), World(ctx))
    w = _world[1]
    cfg = configs(ctx.quick)[i]
    data = cfg.data()
    seen = set()
    for rest in itertools.product(cfg.ops, repeat=cfg.depth - 1):
        o = check(ctx, w, cfg, (first,) + rest, data, rsfile)
        seen.add((str(o[-2][1:]), o[-1][3]))
        if any(x[1] == "ok" and x[2] for x in o[:-1]):
            ctx.stats.add("nontrivial")
    ctx.stats.add("states", len(seen))
    for x in list(seen)[:50]:
        ctx.outcome((cfg.mode, cfg.encoding, cfg.newline, x))


def run(ctx):
    ctx.parallel([(i, op) for i, c in enumerate(configs(ctx.quick)) for op in c.ops], job)
    ctx.sample({"configuration": configs(ctx.quick)[0].label, "calls": "read(3) tell next seek(told)"})


def replay(ctx, data):
    import rsfile

    for q in (True, False):
        for cfg in configs(q):
            if cfg.label == data["label"]:
                check(ctx, World(ctx), cfg, tuple(map(tuple, data["seq"])), cfg.data(), rsfile)
                return
