"""Common machinery of all checks: loading the code under test, parallel exploration, evidence, violations, findings."""
import gc
import importlib
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
MAX_VIOLATIONS = 25
_monotonic = time.monotonic      # before any check replaces it


class HarnessError(Exception):
    """The harness, not the code under test, is wrong (never reported as a violation)."""


def scratch_root():
    for base in ("/dev/shm", "/tmp", None):
        try:
            return tempfile.mkdtemp(prefix="rsmc-", dir=base)
        except OSError:
            continue
    raise HarnessError("no scratch directory")


class Stats(dict):
    def add(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            elif isinstance(v, set):
                self[k] = self.get(k, set()) | v
            elif isinstance(v, list):
                self[k] = (self.get(k, []) + v)[:12]
            else:
                self[k] = v


class StopJob(Exception):
    pass


class Stuck(BaseException):
    """no execution finished for a long time"""


class Again(BaseException):
    """a job got stuck: it is run once more, by another process"""


STUCK_AFTER = 60


def in_code_under_test(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC + "/"):
            return "%s:%s" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return None


class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.stats = Stats()
        self.violations = []        # dicts: key, desc, replay
        self.known_hits = {}
        self.known = load_known(pid)
        self.scratch = None
        self.jobs = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4)
        self.replaying = False
        self.job = None
        self.pin = False
        self.retry_stuck = False

    # -- reporting ---------------------------------------------------------------------------------------------
    def violation(self, key, desc, replay):
        """key: identifies the failing input / call site / history class, for matching with known findings."""
        if self.replaying:
            print("REPLAYED: [%s] %s" % (key, desc))
        for pattern, what in self.known:
            if pattern == key:
                self.known_hits[pattern] = what
                self.stats.add("known_finding_hits")
                return
        self.violations.append({"key": key, "desc": desc, "replay": replay, "job": self.job})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopJob()

    def sample(self, text):
        lst = self.stats.setdefault("samples", [])
        if len(lst) < 6:
            lst.append(text)

    def outcome(self, value):
        """distinct observed outcomes, to detect vacuous explorations"""
        s = self.stats.setdefault("outcomes", set())
        if len(s) < 100000:
            s.add(value)

    # -- parallelism -------------------------------------------------------------------------------------------
    def parallel(self, jobs, fn):
        """Runs fn(ctx, job) for each job in forked workers (dynamic distribution); merges stats and violations."""
        jobs = list(jobs)
        if os.environ.get("VERIF_SERIAL") or len(jobs) == 0:
            for job in jobs:
                self._run_job(fn, job)
            return
        n = min(self.jobs, len(jobs))
        gc.collect()
        gc.freeze()
        sys.stdout.flush()
        workers = []
        alive = {}

        def spawn(index):
            c2w_r, c2w_w = os.pipe()
            w2c_r, w2c_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 3
                try:
                    os.close(c2w_w)
                    os.close(w2c_r)
                    for other in workers:
                        os.close(other["w"])
                        os.close(other["r"])
                    self._worker(jobs, fn, c2w_r, w2c_w, index)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            os.close(c2w_r)
            os.close(w2c_w)
            w = {"pid": pid, "r": w2c_r, "w": c2w_w, "index": index, "job": None}
            workers.append(w)
            alive[w["r"]] = w
            return w

        def end(w):
            workers.remove(w)
            alive.pop(w["r"], None)
            os.close(w["w"])
            os.close(w["r"])
            os.waitpid(w["pid"], 0)

        for k in range(n):
            spawn(k)
        nxt = 0
        stop = False
        error = None

        def feed(w):
            nonlocal nxt
            if nxt < len(jobs) and not stop:
                os.write(w["w"], struct.pack("ii", nxt, 0))
                w["job"] = nxt
                nxt += 1
            else:
                os.write(w["w"], struct.pack("ii", -1, 0))
                w["job"] = None

        for w in list(workers):
            feed(w)
        while alive:
            ready, _, _ = select.select(list(alive), [], [])
            for fd in ready:
                w = alive[fd]
                msg = _read_msg(fd)
                if msg is None:
                    end(w)
                    if w["job"] is not None:
                        error = error or "worker %d died" % w["pid"]
                        stop = True
                    continue
                if msg == "stuck":
                    # a hang of the code under test happens again; one of this process (a thread or fork of the interpreter) doesn't
                    job = w["job"]
                    end(w)
                    if stop:
                        continue
                    self.stats.add("jobs_repeated")
                    w = spawn(w["index"])
                    os.write(w["w"], struct.pack("ii", job, 1))
                    w["job"] = job
                    continue
                stats, viols, hits, err = msg
                self.stats.merge(stats)
                self.violations.extend(viols)
                self.known_hits.update(hits)
                if err:
                    error = error or err
                    stop = True
                if len(self.violations) >= MAX_VIOLATIONS or any(v["key"].startswith("crash:Stuck") for v in viols):
                    stop = True
                feed(w)
        if error and not self.violations:
            raise HarnessError(error)

    def phase(self, fn):
        """Runs fn(ctx) in a forked process (its own import of the code under test), merging what it found."""
        sys.stdout.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                os.close(r)
                self.stats, self.violations, self.known_hits = Stats(), [], {}
                err = None
                try:
                    fn(self)
                except StopJob:
                    pass
                except BaseException:
                    err = traceback.format_exc()
                _write_msg(w, (self.stats, self.violations, self.known_hits, err))
                rc = 0
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        os.close(w)
        msg = _read_msg(r)
        os.close(r)
        os.waitpid(pid, 0)
        if msg is None:
            raise HarnessError("a phase died")
        stats, viols, hits, err = msg
        self.stats.merge(stats)
        self.violations.extend(viols)
        self.known_hits.update(hits)
        if err and not self.violations:
            raise HarnessError(err)

    def _watch(self):
        last = [None]

        def tick(signum, frame):
            now = (self.stats.get("executions", 0), self.stats.get("transitions", 0), len(self.violations))
            if now == last[0]:
                raise Stuck("nothing finished for %d seconds" % STUCK_AFTER)
            last[0] = now
        signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, STUCK_AFTER, STUCK_AFTER)

    def _run_job(self, fn, job):
        self.job = job
        t0 = _monotonic()
        self._watch()
        try:
            fn(self, job)
        except StopJob:
            pass
        except HarnessError:
            raise
        except (Exception, Stuck) as e:
            # nothing the harness expects of the code under test: the code failed where it never does
            where = in_code_under_test(e.__traceback__)
            if where is None and not isinstance(e, Stuck):
                raise
            if isinstance(e, Stuck) and self.retry_stuck:
                raise Again()
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            try:
                self.violation("crash:%s:%s" % (type(e).__name__, where), "job %r: unexpected %s in %s: %s\n%s" % (
                    job, type(e).__name__, where, e, text), {"job": job})
            except StopJob:
                pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if os.environ.get("VERIF_PROFILE"):
            with open("/tmp/verif-profile.txt", "a") as f:
                f.write("%8.2f %8d %r\n" % (_monotonic() - t0, self.stats.get("executions", 0), job))

    def _worker(self, jobs, fn, rfd, wfd, index):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        if self.pin:          # threads of one execution hand over faster on one processor
            try:
                cpus = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {cpus[index % len(cpus)]})
            except OSError:
                pass
        self.scratch = os.path.join(self.scratch, "w%d-%d" % (index, os.getpid()))
        os.mkdir(self.scratch)
        while True:
            data = os.read(rfd, 8)
            if len(data) < 8:
                return
            i, second = struct.unpack("ii", data)
            if i < 0:
                return
            self.retry_stuck = not second
            self.stats, self.violations, self.known_hits = Stats(), [], {}
            err = None
            try:
                self._run_job(fn, jobs[i])
            except Again:
                _write_msg(wfd, "stuck")
                return
            except BaseException:
                err = "job %r: %s" % (jobs[i], traceback.format_exc())
            _write_msg(wfd, (self.stats, self.violations, self.known_hits, err))


_real_write, _real_read = os.write, os.read


def _write_msg(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("q", len(data)) + data
    while data:
        n = _real_write(fd, data)
        data = data[n:]


def _read_msg(fd):
    def exact(n):
        buf = b""
        while len(buf) < n:
            part = _real_read(fd, n - len(buf))
            if not part:
                return None
            buf += part
        return buf
    head = exact(8)
    if head is None:
        return None
    return pickle.loads(exact(struct.unpack("q", head)[0]))


def load_known(pid):
    """known-findings.txt lines:  finding: property=P.. key=<key> :: <what fails>     (fixed: lines suppress nothing)"""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\w+) key=(.*?) :: (.*)$", line.strip())
                if m and m.group(1) == pid:
                    res.append((m.group(2), m.group(3)))
    return res


def import_rsfile():
    """Imports the package from the working tree of /repo (and nothing else)."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import rsfile
    if not os.path.abspath(rsfile.__file__).startswith(SRC + "/"):
        raise HarnessError("rsfile imported from %s" % rsfile.__file__)
    return rsfile


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.umask(0o022)
    ctx = Context(pid, tier, seed)
    ctx.scratch = root = scratch_root()
    main_pid = os.getpid()
    start = _monotonic()
    mod = None
    rc = 2
    try:
        mod = importlib.import_module("mc.props." + pid.lower())
        if "--replay" in argv:
            with open(argv[argv.index("--replay") + 1]) as f:
                data = json.load(f)
            ctx.replaying = True
            ctx.known = []
            mod.prepare(ctx)
            try:
                mod.replay(ctx, data)
            except StopJob:
                pass
            print("replay: %d violation(s) reproduced" % len(ctx.violations))
            return 1 if ctx.violations else 0
        mod.prepare(ctx)
        try:
            mod.run(ctx)
        except StopJob:
            pass
        rc = finish(ctx, mod, _monotonic() - start)
    except Exception:
        if os.getpid() != main_pid:
            raise
        traceback.print_exc()
        if ctx.violations:      # a violation was established before the harness stumbled
            rc = finish(ctx, mod, _monotonic() - start)
    finally:
        if os.getpid() == main_pid:
            os.chdir("/")
            shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def jsonable(x):
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return repr(bytes(x))
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def finish(ctx, mod, wall):
    stats = ctx.stats
    outcomes = stats.pop("outcomes", set())
    level = mod.LEVEL
    ev = stats.get("executions", 0)
    cov = {}
    if level == "model_checking":
        cov["states"] = stats.get("states", 0)
        cov["transitions"] = stats.get("transitions", 0)
        cov["traces_validated_against_impl"] = ev      # every trace is an execution of the real code
    else:
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = stats.get("nontrivial") or len(outcomes)
    cov["rule"] = mod.RULE
    cov["samples"] = stats.pop("samples", []) or ["(none)"]
    if level == "model_checking" or stats.get("nontrivial"):
        cov["distinct_outcomes"] = len(outcomes)
    stats.pop("nontrivial", None)
    cov["exhaustive"] = not ctx.violations and not stats.get("capped")
    cov["bounds"] = jsonable(getattr(mod, "bounds", lambda c: {})(ctx))
    for k, v in stats.items():
        if k != "executions":
            cov.setdefault(k, jsonable(v))
    evidence = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
                "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
                "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + ctx.pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", ctx.pid + ".json"))

    for key, what in sorted(ctx.known_hits.items()):
        print("KNOWN-FINDING: property=%s key=%s %s" % (ctx.pid, key, what))
    seen = set()
    shown = 0
    if ctx.violations:
        outdir = os.path.join(VERIF, "out", ctx.pid)
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        ctx.violations.sort(key=lambda v: len(json.dumps(jsonable(v["replay"]))))
        for v in ctx.violations:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(outdir, "violation-%d.json" % shown)
            with open(path, "w") as f:
                json.dump({"property": ctx.pid, "key": v["key"], "desc": v["desc"], "job": jsonable(v["job"]),
                           "replay": jsonable(v["replay"]),
                           "pickle": pickle.dumps((v["job"], v["replay"])).hex()}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            print("  [%s] %s" % (v["key"], v["desc"]))
            shown += 1
            if shown >= 5:
                break
    print("%s %s: %d executions, %s, %d distinct outcomes, %d violations, %.1fs" % (
        ctx.pid, ctx.tier, ev,
        ", ".join("%s=%s" % (k, v) for k, v in sorted(stats.items()) if isinstance(v, (int, float)) and k != "executions"),
        len(outcomes), len(ctx.violations), wall))
    return 1 if ctx.violations else 0
