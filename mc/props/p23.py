"""P23: native number, time and error conversions."""
import itertools
from fractions import Fraction

from .. import core

LEVEL = "model_checking"
RULE = ("all values of all word sizes up to the bound, all combinations of boundary bit patterns for larger words, all products of boundary words for file times, and all "
        "error codes; each compared with exact arithmetic; a state is a distinct (function, word size, class of result)")
ASSUMPTIONS = ["timestamps are binary floats: file times survive them within the spacing of floats of their size, and exactly for the whole seconds"]

EPOCH = 116444736000000000
# the fixed table of the C runtime (and of CPython), by errno
TABLE = {
    2: [2, 3, 15, 18, 53, 67, 161, 206], 24: [4], 13: [5, 16] + list(range(19, 37)) + [65, 82, 83, 108, 132, 158, 167], 9: [6, 114, 130], 12: [7, 8, 9, 1816],
    7: [10], 8: [11] + list(range(188, 203)), 18: [17], 17: [80, 183], 11: [89, 164, 215], 32: [109], 28: [112], 10: [128, 129], 41: [145],
}
ERRORS = {code: number for number, codes in TABLE.items() for code in codes}


def patterns(width):
    base = {0, 1, 2, 3, (1 << width) - 1, (1 << width) - 2, 1 << (width - 1), (1 << (width - 1)) - 1, (1 << (width - 1)) + 1}
    for i in range(0, width, max(1, width // 8)):
        base |= {1 << i, (1 << i) - 1, ((1 << width) - 1) ^ (1 << i)}
    base.add(int("a5" * (width // 4 + 1), 16) & ((1 << width) - 1))
    return sorted(base)


def call(f, *args):
    try:
        return f(*args)
    except (ValueError, OverflowError, TypeError) as e:
        return "raises"


def prepare(ctx):
    core.import_rsfile()


def bounds(ctx):
    return {"exhaustive_word_bits": 5 if ctx.quick else 8, "pattern_word_bits": [16, 32, 64], "error_codes": 65536}


class Check:
    def __init__(self, ctx):
        import rsfile.rsbackend._utilities as u

        self.ctx, self.u, self.seen = ctx, u, set()

    def bad(self, name, args, got, expected):
        self.ctx.violation("%s(%s)" % (name, ", ".join(map(repr, args))), "%s%r gives %r and must give %s" % (name, tuple(args), got, expected),
                           {"name": name, "args": [str(a) if isinstance(a, Fraction) else a for a in args]})

    def one(self, name, args, ok, expected, cls):
        got = call(getattr(self.u, name), *args)
        self.ctx.stats.add("executions")
        self.ctx.stats.add("transitions")
        self.ctx.stats.add("nontrivial")
        self.seen.add((name, cls, got == "raises"))
        try:
            good = ok(got)
        except Exception:
            good = False
        if not good:
            self.bad(name, args, got, expected)
        return got

    def word(self, w, value):
        u, lim = self.u, 1 << w
        size = () if w == 32 else (w,)
        if 0 <= value < lim:
            want = value - lim if value >= lim // 2 else value
            self.one("unsigned_to_signed", (value,) + size, lambda g: g == want and type(g) is int, want, ("u", w))
            self.one("signed_to_unsigned", (want,) + size, lambda g: g == value and type(g) is int, value, ("s", w))
        self.split(w, value)

    def split(self, w, value):
        lim = 1 << w
        size = () if w == 32 else (w,)
        if 0 <= value < lim * lim:
            want = (value % lim, value // lim)
            got = self.one("pyint_to_double_dwords", (value,) + size, lambda g: tuple(g) == want, want, ("split", w))
        else:
            self.one("pyint_to_double_dwords", (value,) + size, lambda g: g == "raises", "an error", ("outside", w))

    def join(self, w, lo, hi):
        lim = 1 << w
        size = () if w == 32 else (w,)
        want = (lo % lim) + (hi % lim) * lim
        self.one("double_dwords_to_pyint", (lo, hi) + size, lambda g: g == want and type(g) is int, want, ("join", w, lo < 0, hi < 0))

    def filetime(self, lo, hi):
        ticks = lo + (hi << 32)
        exact = Fraction(ticks - EPOCH, 10 ** 7)
        spacing = Fraction(abs(ticks - EPOCH) + 1, 2 ** 51 * 10 ** 7)
        got = self.one("win32_filetime_to_python_timestamp", (lo, hi),
                       lambda g: isinstance(g, float) and abs(Fraction(g) - exact) <= (0 if ticks % 10 ** 7 == 0 and abs(exact) < 2 ** 40 else spacing),
                       float(exact), ("time",))
        if isinstance(got, float) and 10 <= ticks < 2 ** 64 - 5000:
            tol = max(2, max(ticks, EPOCH) >> 49) if ticks % 10 ** 7 else (0 if ticks < 2 ** 53 * 10 else 4096)
            if ticks % 10 ** 7 == 0 and ticks > 2 ** 53:
                # whole seconds: 10**7 * t is exact, its sum with the epoch is one float operation
                tol = ticks >> 51
            self.one("python_timestamp_to_win32_filetime", (got,), lambda g: abs(g[0] + (g[1] << 32) - ticks) <= tol and 0 <= g[0] < 2 ** 32 and 0 <= g[1] < 2 ** 32,
                     "(%d, %d) within %d ticks" % (lo, hi, tol), ("ftime",))

    def error(self, code):
        self.one("winerror_to_errno", (code,), lambda g: g == ERRORS.get(code, 22) and type(g) is int, ERRORS.get(code, 22), ("err", code in ERRORS))


def run(ctx):
    c = Check(ctx)
    top = bounds(ctx)["exhaustive_word_bits"]
    for w in range(1, top + 1):
        lim = 1 << w
        for v in range(-lim * lim - 2, 2 * lim * lim + 2) if w <= 6 else range(-lim, lim * lim + lim):
            c.word(w, v)
        for lo, hi in itertools.product(range(-(lim // 2), lim), repeat=2):
            c.join(w, lo, hi)
    for w in (16, 32, 64):
        pat = patterns(w)
        signed = sorted(set(pat) | {p - (1 << w) for p in pat if p >= 1 << (w - 1)})
        for p in pat:
            c.word(w, p)
        for lo, hi in itertools.product(signed, repeat=2):
            c.join(w, lo, hi)
            if lo >= 0 and hi >= 0:
                c.split(w, lo + (hi << w))
        for v in (-1, -2, -(1 << w), -(1 << 2 * w), 1 << 2 * w, (1 << 2 * w) + 1, (1 << 2 * w) + (1 << w), 1 << 3 * w, (1 << 4 * w) - 1):
            c.split(w, v)
    pat = patterns(32)
    for lo, hi in itertools.product(pat, repeat=2):
        c.filetime(lo, hi)
    seconds = [0, 1, 2, 59, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 11644473600] + [10 ** i for i in range(11)] + list(range(1500000000, 1500000000 + (50 if ctx.quick else 2000)))
    for s in seconds + [-s for s in seconds if s <= 11644473600]:
        ticks = EPOCH + s * 10 ** 7
        c.filetime(ticks & 0xFFFFFFFF, ticks >> 32)
        c.one("python_timestamp_to_win32_filetime", (s,), lambda g: tuple(g) == (ticks & 0xFFFFFFFF, ticks >> 32), (ticks & 0xFFFFFFFF, ticks >> 32), ("whole",))
        for frac in (1, 5, 10, 1234567, 9999999):
            c.filetime((ticks + frac) & 0xFFFFFFFF, (ticks + frac) >> 32)
    for s in (-11644473601, -11644473600.5, -2 ** 40, -1e300, 2 ** 41, 1e300, float("inf"), float("nan")):
        c.one("python_timestamp_to_win32_filetime", (s,), lambda g: g == "raises", "an error", ("time outside",))
    for code in list(range(65536)) + [-1, 2 ** 31, 2 ** 32 + 5, -2147024891]:
        c.error(code)
    ctx.stats.add("states", len(c.seen))
    for s in c.seen:
        ctx.outcome(str(s))
    ctx.sample({"checked": "unsigned_to_signed", "example": [255, 8]})


def replay(ctx, data):
    c = Check(ctx)
    name, args = data["name"], data["args"]
    print("%s%r gives %r" % (name, tuple(args), call(getattr(c.u, name), *args)))
    run(ctx)
