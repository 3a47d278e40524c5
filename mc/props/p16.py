"""P16: after every step of every history, the set of open descriptors is exactly the expected one."""
from . import p01
from .. import core, lockworld as lw
from ..lockworld import spec

LEVEL = "model_checking"
RULE = p01.RULE + "; after each operation the process' open descriptors are listed and compared with the model"
ASSUMPTIONS = ["no other code of the process opens or closes descriptors during an execution"]
prepare = p01.prepare
ONLY = ("descriptors",)


def worlds(quick):
    w = {}
    life = [(k, h) for h in range(3) for k in ("close", "open")]
    w["paths"] = ([spec(), spec(path="A2"), spec(path="B")],
                  [("lock", 0, 0, 2, True), ("lock", 1, 0, 2, True), ("lock", 1, 4, None, False), ("lock", 2, 0, 1, False),
                   ("unlock", 0, 0, 2), ("unlock", 1, 0, 2), ("unlock", 1, 4, None), ("unlock", 2, 0, 1), ("drop", 0)] + life,
                  5 if quick else 6)
    w["wrap"] = ([spec(), spec(kind="dup", of=0), spec(kind="same", of=0, closefd=False)],
                 [("lock", h, 2 * h, 2, False) for h in range(3)] + [("unlock", h, 2 * h, 2) for h in range(3)] +
                 [(k, h) for h in range(3) for k in ("close", "open")] + [("drop", 1), ("drop", 2)], 4 if quick else 5)
    for layer in ("buf", "safe", "text"):
        w["layer-" + layer] = ([spec(layer=layer), spec(path="A2"), spec(kind="dup", of=0, layer=layer, closefd=False)],
                               [("lock", 0, 0, 2, False), ("lock", 1, 2, 2, False), ("unlock", 1, 2, 2), ("enter", 0, 5, 1, False),
                                ("exit", 0)] + [(k, h) for h in range(3) for k in ("close", "open")] + [("drop", 0), ("drop", 2)],
                               4 if quick else 5)
    w["foreign"] = ([spec(), spec(path="A2")], [("lock", h, 0, 2, sh) for h in (0, 1) for sh in (True, False)] +
                    [("unlock", h, 0, 2) for h in (0, 1)] + [("flock", 0, 1, False), ("funlock", 0, None)] +
                    [(k, h) for h in range(2) for k in ("close", "open")], 4 if quick else 5)
    return w


def bounds(ctx):
    return {k: {"alphabet": len(a), "depth": d} for k, (s, a, d) in worlds(ctx.quick).items()}


def run(ctx):
    p01.run(ctx, ("fds",), worlds, ONLY)


def replay(ctx, data):
    p01.replay(ctx, data, ("fds",), worlds)
