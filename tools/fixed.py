"""Rewrites the 'fixed:' lines of known-findings.txt from the fix commits of /repo."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [("always detect a range already", "P01"), ("unlocking a never locked area", "P01"), ("closing a stream must wake up", "P03"),
     ("unlock when a lock_file() block", "P02"), ("don't lose the shared locks", "P02"), ("monotonic clock", "P04"),
     ("don't retry forever lock requests", "P03"), ("flush buffered data before leaving", "P05"), ("protect the first call", "P06"),
     ("hold the mutex of thread-safe", "P06"), ("don't leak the file descriptor when opening", "P11"),
     ("zero_fill argument of truncate", "P12"), ("readinto() must return None", "P13"), ("file descriptor 0", "P20"),
     ("call the opener with integer flags", "P21"), ("write_to_file() and append_to_file() lost", "P18"),
     ("hide the failures of fdatasync", "P14"), ("forked children from blocking", "P07"),
     ("readinto() failed on buffered", "P08"), ("readline() of buffered", "P08"), ("refused seeks corrupted", "P08"),
     ("closed buffered streams still", "P17"), ("truncate() crashed or left a hole", "P12"),
     ("hide the failures of full flushes", "P14"), ("leaks descriptors when an error", "P17"), ("streams lost without being closed", "P17"), ("failed openings could erase", "P11"),
     ("forked children leaked", "P07"), ("forked children could block forever on the mutex", "P07"), ("took blocking answers", "P18"), ("FileIO replacement erased", "P20"),
     ("integers and words outside", "P23"),
     ("empty names were reported", "P21"), ("undecodable bytes could not be opened", "P21"), ("results of openers were not validated", "P21"),
     ("open replacement ignored", "P21"), ("FileIO replacement ignored", "P21"),
     ("leaked a C descriptor on Windows", "P22"), ("truncations moved the stream on Windows", "P22"), ("left garbage in the gap on Windows", "P22"), ("whence values crashed on Windows", "P22"),
     ("no identity with pywin32", "P22"), ("by the ctypes backend of Windows", "P22"), ("leaked C descriptors with pywin32", "P22")]
try:
    from fixed_extra import P as P2
    P += P2
except ImportError:
    pass
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
lines = []
for l in out:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        pid = [p for k, p in P if k in s]
        assert pid, s
        lines.append("fixed: property=%s %s %s" % (pid[0], h, s[5:]))
path = os.path.join(V, "known-findings.txt")
old = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(path) else []
open(path, "w").write("\n".join(old + lines) + "\n")
