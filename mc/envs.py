"""The system-call seam: every call of these functions reachable from the code under test goes through `call hook`.

install() must run before rsfile is imported. Harness code uses the REAL functions."""
import fcntl
import os

NAMES = ["open", "close", "read", "write", "lseek", "ftruncate", "fsync", "fdatasync", "fstat", "set_inheritable", "isatty",
         "pread", "pwrite", "writev", "readv", "preadv", "pwritev", "dup", "dup2", "posix_fallocate", "sync", "lockf", "truncate",
         "get_inheritable", "set_blocking", "sendfile", "copy_file_range", "stat", "lstat", "unlink", "rename", "replace", "chmod",
         "fchmod", "utime", "mkdir", "link", "symlink"]
REAL = {n: getattr(os, n) for n in NAMES if hasattr(os, n)}
REAL_FCNTL = {n: getattr(fcntl, n) for n in ("lockf", "fcntl", "flock", "ioctl")}


class R:
    """attribute access to the real functions"""


for _n, _f in REAL.items():
    setattr(R, _n, staticmethod(_f))
R.flockf = staticmethod(fcntl.lockf)
R.fcntl = staticmethod(fcntl.fcntl)

_hook = None


def set_hook(h):
    """h(name, real, args, kwargs) -> result; None to remove"""
    global _hook
    _hook = h


def _make(name, real):
    def syscall(*args, **kwargs):
        h = _hook
        if h is None:
            return real(*args, **kwargs)
        return h(name, real, args, kwargs)
    syscall.__name__ = name
    syscall.__qualname__ = name
    syscall.real = real
    return syscall


_installed = False


def install():
    global _installed
    if _installed:
        return
    import sys
    assert "rsfile" not in sys.modules
    import _pyio, io, tempfile, shutil, threading, socket, subprocess, multiprocessing       # keep their own references first
    for n, f in REAL.items():
        w = _make(n, f)
        setattr(os, n, w)
    for n, f in REAL_FCNTL.items():
        setattr(fcntl, n, _make("fcntl_" + n if n != "lockf" else "lockf", f))
    # os.supports_* sets are membership tests on the originals
    for s in ("supports_dir_fd", "supports_fd", "supports_follow_symlinks", "supports_effective_ids"):
        setattr(os, s, {getattr(os, f.__name__, f) for f in getattr(os, s)} | getattr(os, s))
    _installed = True
