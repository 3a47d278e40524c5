"""Kernel record locks seen and taken by a *foreign* owner.

An open-file-description (OFD) lock conflicts with the classic POSIX record locks of any process, this one included, so a
descriptor with OFD locks behaves towards the code under test exactly as another process does."""
import fcntl
import os
import struct

_FMT = "hhqqi4x"
_fcntl = fcntl.fcntl
_open, _close = os.open, os.close
F_OFD_GETLK, F_OFD_SETLK = 36, 37
INF = None


def _flock(kind, start, end):
    return struct.pack(_FMT, kind, 0, start, 0 if end is None else end - start, 0)


class Foreign:
    """Another process' view of one file."""

    def __init__(self, path):
        self.fd = _open(path, os.O_RDWR | os.O_CLOEXEC)

    def lock(self, start, end, shared):
        try:
            _fcntl(self.fd, F_OFD_SETLK, _flock(fcntl.F_RDLCK if shared else fcntl.F_WRLCK, start, end))
            return True
        except OSError as e:
            if e.errno not in (11, 13):
                raise
            return False

    def unlock(self, start=0, end=None):
        _fcntl(self.fd, F_OFD_SETLK, _flock(fcntl.F_UNLCK, start, end))

    def seen(self, start, end, shared_request=False):
        """'' if free for us, 'R' / 'W' for the kind of a lock in the way."""
        r = _fcntl(self.fd, F_OFD_GETLK, _flock(fcntl.F_RDLCK if shared_request else fcntl.F_WRLCK, start, end))
        kind = struct.unpack(_FMT, r)[0]
        return {fcntl.F_UNLCK: "", fcntl.F_RDLCK: "R", fcntl.F_WRLCK: "W"}[kind]

    def close(self):
        _close(self.fd)
