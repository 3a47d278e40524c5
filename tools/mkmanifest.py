"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "stateless model checking of the real code: exhaustive enumeration of operation histories up to a depth, in lockstep with a reference model"
S = "stateless model checking of the real threads under a controlled scheduler: all interleavings up to a preemption bound"
E = "exhaustive enumeration of environment answers (faults, short answers, crash points) of the real code"
TECH = {
    "P01": (H, "model_checking", "complete within: 2-3 handles + foreign process, small range universe, depth 3-5"),
    "P02": (H + "; kernel lock table probed after each step", "model_checking", "complete within: 2-3 handles + foreign process, small range universe, depth 3-5"),
    "P16": (H + "; descriptor table compared after each step", "model_checking", "complete within: 2-3 streams (paths, duplicates, shared descriptors), depth 4-6"),
    "P08": (H, "model_checking", "complete within: small alphabets of offsets/lengths around buffer boundaries, depth 3-5, all layers and modes"),
    "P12": (H, "model_checking", "complete within: sizes around buffer boundaries, depth 3-5, native extension working / silently absent / failing"),
    "P15": (H, "model_checking", "complete within: depth 3-5 with foreign appends and truncations, all layers"),
    "P03": (S, "model_checking", "complete within: 2-3 threads, <=2-3 preemptions, line-level scheduling points in the locking code, plus a foreign process"),
    "P04": (S + ", on a virtual clock", "model_checking", "complete within: 2-3 threads or 1 thread and a foreign process, all release instants on the grid of spin delays, clock jumps"),
    "P05": (H + "; " + S, "model_checking", "complete within: depth 3-5 histories over two participants and 2-3 threads with <=2 preemptions"),
    "P06": (S, "model_checking", "complete within: 2-3 threads, 1-2 calls each, <=2 preemptions; results compared with every serial order"),
    "P07": (S + "; a real fork at each scheduling point, each child program run by a real process; real exec after each history", "model_checking", "complete within: 2-3 threads, 1-2 preemptions, 8 child programs; exec histories of depth 3-4"),
    "P10": ("exhaustive enumeration of mode strings, file states and pairs of openings on the real code against the documented table and io.open", "model_checking", "complete within: all subsets of flags in two orders, permutations up to 4-5 flags, all strings up to 3 characters over a mixed alphabet, 6 file states"),
    "P19": (H + " (model of directory entries and files)", "model_checking", "complete within: all sequences of 4-6 operations over 16 worlds of up to three streams and four entries"),
    "P20": ("exhaustive enumeration of descriptors, ways of wrapping them and call scripts on the real code against a model of the descriptor table and the file", "model_checking", "complete within: 9 kinds of descriptors, 3 number classes, 7 sources, 20 modes, 6 layers, 9 scripts, 4 endings (the quick check takes a quarter of the scripts and endings), malformed targets"),
    "P23": ("exhaustive enumeration of the values of small words, of boundary bit patterns and of error codes on the real code against exact arithmetic", "model_checking", "complete within: words up to 5-8 bits exhaustively, boundary patterns for 16, 32 and 64 bits, 65536 error codes"),
    "P09": (H + " (text streams of the standard library, C and pure python)", "model_checking", "complete within: all sequences of 3-4 calls over alphabets of 12-16 calls, 260 configurations of mode, encoding, newline, error handler, buffer and chunk sizes"),
    "P21": ("exhaustive enumeration of the products of argument values, given in every style, on the real code against the standard C and pure python implementations", "model_checking", "complete within: the products of the listed values of each argument, for open(), rsopen() and the six replaced classes, before and after installation"),
    "P22": ("exhaustive enumeration of operation sequences, openings, lock sequences and native failures of the Windows classes over an explicit model of the Win32 API, replayed step by step against the Unix classes on real files", "model_checking", "complete within: histories of 2-3 (thorough 3-4) calls in 10 modes and 3 layers, 2 bindings, lock sequences of 3-4 calls, one native failure per script"),
    "P18": (H + " (io.open as oracle); " + E + "; " + S, "model_checking", "complete within: products of small argument sets, 2-3 abnormal answers, histories of depth 3-4, 2-3 threads with <=2-3 preemptions"),
    "P11": (E + " during opening; content and kernel locks examined after each system call", "fault_enumeration", "complete within: the product of modes, file states, lock holders and options, up to 3 failures per opening"),
    "P13": (E + "; observed calls checked against a nondeterministic byte-file model", "fault_enumeration", "complete within: histories of 2-3 calls with up to 2-3 abnormal answers"),
    "P14": (E + "; crash assumed at every return, durable state compared with what was written", "fault_enumeration", "complete within: histories of 3 calls, all combinations of the listed answers of the native primitives"),
    "P17": (E + " while closing", "fault_enumeration", "complete within: 2-3 preparatory calls, 6 ways of closing, up to 2 failures"),
}
NA = {}
try:
    from manifest_extra import TECH as T2, NA as N2
    TECH.update(T2); NA.update(N2)
except ImportError:
    pass
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in TECH and os.path.exists(os.path.join(V, "mc", "props", p.lower() + ".py")):
        t, level, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --thorough" % p,
                       "technique": t, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hook was needed: the checks patch the standard library's os, fcntl, threading and time modules from outside before importing rsfile", "source_commits": []}},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
