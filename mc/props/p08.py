"""P08: binary I/O against the byte-file model, all call sequences up to a depth."""
from .. import core, hist
from ..hist import Config

LEVEL = "model_checking"
RULE = ("every sequence of exactly `depth` calls over the alphabet is executed on a fresh real stream; results, final position, size and "
        "file bytes are compared with the model; a state is a distinct (content, position) reached at the end of a sequence")
ASSUMPTIONS = ["regular file on a POSIX file system; data values are distinct letters so that misplacement is visible"]

READS = [("read", 0), ("read", 1), ("read", 4), ("read", -1), ("readinto", 3), ("readline", -1)]
WRITES = [("write", 1), ("write", 3), ("write", 6)]
SEEKS = [("seek", 0), ("seek", 2, 1), ("seek", -1, 1), ("seek", -2, 2), ("seek", 12, 0)]
MISC = [("tell",), ("truncate", None), ("truncate", 4), ("size",), ("flush",)]
MORE = [("read", None), ("readdef",), ("readall",), ("readline", 2), ("readlines",), ("next",), ("peek", 1), ("read1", 2), ("read1", -1),
        ("readinto1", 3), ("readinto", 4, "view"), ("readinto", 3, "array"), ("readinto", 4, "arrayH"), ("readinto", 0),
        ("write", 0), ("write", 4, "bytearray"), ("write", 4, "memoryview"), ("write", 4, "array"), ("write", 3, "view2"),
        ("write", 3, "nl"), ("writelines", 5), ("seek", 3), ("seek", 0, 2), ("seek", 3, 2), ("truncate", 0), ("truncate", 14),
        ("sync",), ("close",), ("reopen",), ("foreign_none",)][:-1]


def configs(quick):
    core4 = READS + WRITES + SEEKS + MISC
    every = core4 + MORE
    c = []
    d = 0 if quick else 1
    for b in (0, 2, 3, 5, -1):
        c.append((Config("rw-b%d" % b, "RWB", b), core4, 4))
    for mode in ("RB", "WB", "AB", "RAB"):
        for b in (0, 3, -1):
            if quick and b == -1 and mode != "WB":
                continue
            c.append((Config("%s-b%d" % (mode, b), mode, b), core4, (3 if quick else 4)))
    for b in (0, 4, -1):
        c.append((Config("wide-b%d" % b, "RWB", b), every, 3))
    for mode in ("RB", "WB", "RAB"):
        for b in (0, 4):
            c.append((Config("wide-%s-b%d" % (mode, b), mode, b), every, 3))
    for b in (0, 4, -1):
        c.append((Config("safe-b%d" % b, "RWB", b, safe=True), every, 2 + d))
    for b in (0, 4):
        c.append((Config("fileno-b%d" % b, "RWB", b, inode="fileno"), every, 2 + d))
        c.append((Config("handle-b%d" % b, "RWB", b, inode="handle"), every, 2 + d))
    c.append((Config("std-r+", "rb+", -1), core4, 3))
    c[-1][0].mode = "RWNB"
    c.append((Config("erase", "RWEB", 3), core4, 3))
    big = bytes(i * 7 % 251 for i in range(9000))
    bigops = [("read", 4095), ("read", 4096), ("read", 5000), ("write", 1), ("write", 4096), ("write", 4097), ("write", 9000),
              ("seek", 1), ("seek", 4096), ("seek", 0, 2), ("truncate", None), ("truncate", 20000), ("read", -1), ("readinto", 8193),
              ("tell",)]
    for b in (0, -1, 4096):
        c.append((Config("big-b%d" % b, "RWB", b, initial=big), bigops, 3))
    huge = bytes(i * 7 % 251 for i in range(70000))
    hugeops = [("read", -1), ("readall",), ("readinto", 40000), ("read", 33000), ("write", 70001), ("seek", 8191), ("seek", -8193, 2), ("truncate", 65537), ("tell",)]
    for b in (0, -1, 8192, 65536, 200000):
        c.append((Config("huge-b%d" % b, "RWB", b, initial=huge), hugeops, 3))
    for base in hist.FAR:
        for mode, b, safe, inode in (("RWB", 0, False, "path"), ("RWB", 3, False, "path"), ("RWB", -1, True, "path"), ("RAB", 0, False, "path"),
                                     ("RAB", 3, False, "path"), ("RWB", 0, False, "fileno"), ("RB", 3, False, "path")):
            c.append((Config("far%d-%s-b%d-%s" % (base, mode, b, inode), mode, b, safe=safe, inode=inode, base=base, initial=hist.FAR_INITIAL), hist.FAR_OPS,
                      3))
    return c


def bounds(ctx):
    return {c.name: {"mode": c.mode, "alphabet": len(a), "depth": d} for c, a, d in configs(ctx.quick)}


def prepare(ctx):
    global rsfile
    rsfile = core.import_rsfile()


def run(ctx):
    cs = {c.name: (c, a, d) for c, a, d in configs(ctx.quick)}
    jobs = []
    for name, (c, a, d) in cs.items():
        for op in a:
            if hist.applicable(c, op):
                jobs.append((name, (op,)))

    def job(ctx, j):
        c, a, d = cs[j[0]]
        hist.explore(ctx, rsfile, c, a, d, first=j[1])
    ctx.parallel(jobs, job)
    ctx.sample("rw-b3: " + hist.fmt([("read", 1), ("write", 3), ("seek", -1, 1), ("truncate", None)]))


def replay(ctx, data):
    r = data["replay"]
    for quick in (True, False):
        for c, a, d in configs(quick):
            if c.name == r["config"]:
                h = tuple(tuple(o) for o in r["history"])
                hist.explore(ctx, rsfile, c, a, len(h), first=h)
                return
