"""P02: after every step of every history, the locks another process sees are exactly those held by open streams."""
from . import p01
from .. import core, lockworld as lw
from ..lockworld import spec

LEVEL = "model_checking"
RULE = p01.RULE + "; after each operation every elementary interval of each file is probed with F_OFD_GETLK"
ASSUMPTIONS = ["Linux record-lock semantics; another process is played by an open-file-description lock owner"]
prepare = p01.prepare
ONLY = ("other-processes-see", "another-process", "still-locked")


def worlds(quick):
    w = {}
    mk = p01.mk
    w["two"] = ([spec(), spec(path="A2")], mk([0, 1], [(0, 2), (1, 2), (0, None)], [("close", 0), ("close", 1)]), 4 if quick else 5)
    w["foreign"] = ([spec(), spec(path="AS")], mk([0, 1], [(0, 3), (2, 3)], [
        ("flock", 1, 1, False), ("flock", 1, 1, True), ("funlock", 0, None)]), 4 if quick else 5)
    w["three"] = ([spec(), spec(path="A2"), spec(mode="RB")],
                  [("lock", h, a, n, True) for h in range(3) for (a, n) in ((0, 2), (1, 2), (3, None))] +
                  [("unlock", h, a, n) for h in range(3) for (a, n) in ((0, 2), (1, 2), (3, None))] +
                  [("close", h) for h in range(3)] + [("drop", 0)], 4)
    w["lifecycle"] = ([spec(), spec(), spec(path="B")],
                      [("lock", 0, 0, 2, False), ("lock", 1, 2, 2, False), ("lock", 1, 0, 2, True), ("lock", 0, 0, 2, True),
                       ("lock", 2, 0, None, False), ("unlock", 0, 0, 2), ("unlock", 1, 2, 2), ("unlock", 2, 0, None)] +
                      [(k, h) for h in range(3) for k in ("close", "drop", "open")], 4 if quick else 5)
    w["wrap"] = ([spec(), spec(kind="dup", of=0), spec(kind="same", of=0, closefd=False)],
                 mk([0, 1], [(0, 2), (1, 2)], [("lock", 2, 4, 2, False), ("unlock", 2, 4, 2)] +
                    [(k, h) for h in range(3) for k in ("close", "open")], shareds=(True, False)), 3 if quick else 4)
    for layer in ("raw", "buf", "safe", "text"):
        ops = [("enter", h, a, n, sh) for h in (0, 1) for (a, n) in ((0, 2), (1, 2)) for sh in (True, False)]
        ops += [(k, h) for h in (0, 1) for k in ("exit", "exitexc", "close", "drop")]
        ops += [("unlock", 0, 0, 2), ("lock", 1, 3, 3, False), ("flock", 1, 1, True)]
        w["with-" + layer] = ([spec(layer=layer), spec(layer="raw")], ops, 4 if quick else 5)
    rs = [(a, n) for a in (0, 1, 2, 3) for n in (1, 2, None)] + [(2, 2 ** 31), (0, 2 ** 32 + 1), (2 ** 31 - 1, 1), (2 ** 32, 1),
                                                                 (2 ** 62, None)]
    # three locks of two handles then releases: the kernel merges and splits ranges
    w["merge"] = ([spec(), spec(path="A2")], [("lock", h, a, n, True) for (a, n) in rs for h in (0, 1)] +
                  [("unlock", h, a, n) for (a, n) in rs for h in (0, 1)], 3)
    return w


def bounds(ctx):
    return {k: {"alphabet": len(a), "depth": d} for k, (s, a, d) in worlds(ctx.quick).items()}


def run(ctx):
    p01.run(ctx, ("kernel",), worlds, ONLY)


def replay(ctx, data):
    p01.replay(ctx, data, ("kernel",), worlds)
