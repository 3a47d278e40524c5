"""A model of the part of the Win32 API and of the Microsoft C runtime that rsfile uses, and the two bindings to it.

The kernel is a plain Python object. The ctypes binding is a set of native functions (ctypes callbacks having the real
prototypes), called by address through the declarations found in the code under test, so that its types, its argument
conversions and its structures are really used. The pywin32 binding is a set of modules put in sys.modules."""
import builtins
import ctypes
import errno as E
import os
import stat
import sys
import types

GENERIC_READ, GENERIC_WRITE = 0x80000000, 0x40000000
UNDEFINED = 0xAA        # what the bytes which were never written hold, when nothing specifies it
MAX64 = (1 << 64) - 1

# error codes -> errno, as in the C runtime
TABLE = {
    2: [2, 3, 15, 18, 53, 67, 161, 206], 24: [4], 13: [5, 16] + list(range(19, 37)) + [65, 82, 83, 108, 132, 158, 167], 9: [6, 114, 130], 12: [7, 8, 9, 1816],
    7: [10], 8: [11] + list(range(188, 203)), 18: [17], 17: [80, 183], 11: [89, 164, 215], 32: [109], 28: [112], 10: [128, 129], 41: [145],
}
ERRNO = {code: number for number, codes in TABLE.items() for code in codes}


def errno_of(code):
    return ERRNO.get(code, E.EINVAL)


class KError(Exception):
    def __init__(self, code):
        self.code = code


class File:
    def __init__(self, index, kind="file", data=b"", readonly=False):
        self.index, self.kind, self.readonly = index, kind, readonly
        self.size = len(data)
        self.bytes = dict(enumerate(data))
        self.zeros = []             # ranges whose content is considered as settled
        self.locks = []             # [handle, start, length, exclusive]
        self.ctime, self.atime, self.mtime = 130000000000000001, 131000000000000003, 132000000012345678
        self.nonblocking = False
        self.broken = False

    def get(self, a, b):
        out = bytearray()
        for i in range(a, min(b, self.size)):
            v = self.bytes.get(i)
            out.append(v if v is not None else 0 if any(x <= i < y for x, y in self.zeros) else UNDEFINED)
        return bytes(out)

    def put(self, pos, data):
        for i, v in enumerate(data):
            self.bytes[pos + i] = v
        self.size = max(self.size, pos + len(data))

    def resize(self, size):
        if size < self.size:
            for i in [i for i in self.bytes if i >= size]:
                del self.bytes[i]
            self.zeros = [(a, min(b, size)) for a, b in self.zeros if a < size]
        self.size = size

    def settle(self, a, b):
        self.zeros.append((a, b))

    def content(self):
        return self.get(0, self.size)


class Open:
    def __init__(self, file, access, inherit, through):
        self.file, self.access, self.inherit, self.through, self.pos = file, access, inherit, through, 0


class Kernel:
    def __init__(self, first_handle=0x40, first_fd=2000):
        self.next_handle, self.next_fd = first_handle, first_fd
        self.handles, self.fds, self.names = {}, {}, {}
        self.last_error = 0
        self.next_index = 0x12345678_9ABCDEF0
        self.volume = 0xFEDCBA98
        self.calls = []             # names of the calls made
        self.fault = None           # (index of the call, code)
        self.failing = None         # (name of the call, code, how many times)
        self.max_io = None
        self.misuse = []            # double closes and such
        self.foreign = []           # (file, start, length, exclusive), released when something blocks
        self.blocked = 0
        self.flushed = []

    # -- helpers
    def make(self, name, data=b"", kind="file", readonly=False):
        f = self.names[name] = File(self.next_index, kind, data, readonly)
        self.next_index += 1
        return f

    def enter(self, name):
        self.calls.append(name)
        if self.fault and len(self.calls) - 1 == self.fault[0]:
            raise KError(self.fault[1])
        if self.failing and self.failing[0] == name and self.failing[2] > 0:
            self.failing = (name, self.failing[1], self.failing[2] - 1)
            raise KError(self.failing[1])

    def open_(self, handle):
        o = self.handles.get(handle)
        if o is None:
            self.misuse.append("%s on the invalid handle %r" % (self.calls[-1], handle))
            raise KError(6)
        return o

    def new_handle(self, o):
        h = self.next_handle
        self.next_handle += 4
        self.handles[h] = o
        return h

    # -- API
    def CreateFile(self, name, access, share, inherit, disposition, flags):
        self.enter("CreateFile")
        if not name:
            raise KError(3)
        if "/missing/" in name:
            raise KError(3)
        f = self.names.get(name)
        if f is None:
            if disposition == 3:
                raise KError(2)
            if disposition not in (1, 4):
                raise KError(87)
            f = self.make(name, readonly=bool(flags & 1))
        else:
            if disposition == 1:
                raise KError(80)
            if disposition not in (3, 4):
                raise KError(87)
            if f.kind == "dir" or f.readonly and access & GENERIC_WRITE:
                raise KError(5)
            for o in self.handles.values():
                if o.file is f and f.kind == "file" and share & 7 != 7:
                    raise KError(32)
        return self.new_handle(Open(f, access, inherit, bool(flags & 0x80000000)))

    def CloseHandle(self, handle):
        self.enter("CloseHandle")
        self.drop(handle)

    def drop(self, handle):
        o = self.open_(handle)
        del self.handles[handle]
        if not any(x is o for x in self.handles.values()):
            o.file.locks = [l for l in o.file.locks if l[0] is not o]

    def GetFileInformationByHandle(self, handle):
        self.enter("GetFileInformationByHandle")
        return self.open_(handle).file

    def GetFileSizeEx(self, handle):
        self.enter("GetFileSizeEx")
        return self.open_(handle).file.size

    def SetFilePointerEx(self, handle, offset, method):
        self.enter("SetFilePointerEx")
        o = self.open_(handle)
        if o.file.kind != "file":
            return 0
        if method not in (0, 1, 2):
            raise KError(87)
        pos = offset + (0, o.pos, o.file.size)[method]
        if pos < 0:
            raise KError(131)
        if pos >= 1 << 63:
            raise KError(87)
        o.pos = pos
        return pos

    def SetEndOfFile(self, handle):
        self.enter("SetEndOfFile")
        o = self.open_(handle)
        if not o.access & GENERIC_WRITE:
            raise KError(5)
        o.file.resize(o.pos)

    def denied(self, o, a, b, writing):
        for owner, start, length, exclusive in o.file.locks + [(None,) + l[1:] for l in self.foreign if l[0] is o.file]:
            if start < b and a < start + length and (writing if not exclusive else owner is not o):
                return True
        return False

    def WriteFile(self, handle, data):
        self.enter("WriteFile")
        o = self.open_(handle)
        if not o.access & GENERIC_WRITE:
            raise KError(5)
        if o.file.kind == "pipe":
            if o.file.broken:
                raise KError(232)
            o.file.put(o.file.size, data)
            return len(data)
        if self.max_io:
            data = data[:self.max_io]
        if not data:
            return 0
        if self.denied(o, o.pos, o.pos + len(data), True):
            raise KError(33)
        o.file.put(o.pos, data)
        o.pos += len(data)
        return len(data)

    def ReadFile(self, handle, count):
        self.enter("ReadFile")
        o = self.open_(handle)
        if not o.access & GENERIC_READ:
            raise KError(5)
        if o.file.kind == "pipe":
            data = o.file.get(0, count)
            if not data and count:
                raise KError(109 if o.file.broken else 232)
            rest = o.file.get(len(data), o.file.size)
            o.file.resize(0)
            o.file.put(0, rest)
            return data
        if self.max_io:
            count = min(count, self.max_io)
        if self.denied(o, o.pos, min(o.pos + count, o.file.size), False):
            raise KError(33)
        data = o.file.get(o.pos, o.pos + count)
        o.pos += len(data)
        return data

    def FlushFileBuffers(self, handle):
        self.enter("FlushFileBuffers")
        o = self.open_(handle)
        if not o.access & GENERIC_WRITE:
            raise KError(5)
        self.flushed.append(o.file.content() if o.file.size < 4096 else None)

    def LockFileEx(self, handle, flags, length, start):
        self.enter("LockFileEx")
        o = self.open_(handle)
        exclusive, nowait = bool(flags & 2), bool(flags & 1)
        while True:
            against = [l for l in o.file.locks + [(None,) + x[1:] for x in self.foreign if x[0] is o.file]
                       if start < l[1] + l[2] and l[1] < start + length and (exclusive or l[3])]
            if not against:
                break
            if nowait:
                raise KError(33)
            self.blocked += 1
            if any(l[0] is not None for l in against):
                self.misuse.append("deadlock")
                raise KError(87)
            self.foreign = [x for x in self.foreign if x[0] is not o.file]
        o.file.locks.append([o, start, length, exclusive])

    def UnlockFileEx(self, handle, length, start):
        self.enter("UnlockFileEx")
        o = self.open_(handle)
        for l in o.file.locks:
            if l[0] is o and l[1] == start and l[2] == length:
                o.file.locks.remove(l)
                return
        raise KError(158)

    def DuplicateHandle(self, handle, inherit):
        self.enter("DuplicateHandle")
        return self.new_handle(self.open_(handle))

    # -- C runtime
    def open_osfhandle(self, handle, flags):
        self.enter("open_osfhandle")
        if handle not in self.handles:
            raise KError(6)
        fd = self.next_fd
        while fd in self.fds:
            fd += 1
        self.next_fd = fd + 1
        self.fds[fd] = handle
        return fd

    def crt_close(self, fd):
        handle = self.fds.pop(fd)
        self.calls.append("close")
        if handle not in self.handles:
            self.misuse.append("close(%d) whose handle was already closed" % fd)
            raise OSError(E.EBADF, "Bad file descriptor")
        self.drop(handle)


# -- the one in use; replaced before each execution -------------------------------------------------------------------

current = Kernel()
_keep = []
_installed = False


def oserror(code):
    e = OSError(errno_of(code), "Error %d" % code)
    e.winerror = code
    return e


def install_os():
    """Routes the os functions given descriptors of the modelled C runtime to the model."""
    global _installed
    if _installed:
        return
    _installed = True

    def route(name, f):
        real = getattr(os, name)

        def wrapper(fd, *args, **kwargs):
            if type(fd) is int and fd in current.fds:
                return f(fd, *args, **kwargs)
            return real(fd, *args, **kwargs)

        setattr(os, name, wrapper)

    class Stat:
        def __init__(self, fd):
            o = current.handles.get(current.fds[fd])
            if o is None:
                raise OSError(E.EBADF, "Bad file descriptor")
            f = o.file
            self.st_mode = {"file": stat.S_IFREG, "dir": stat.S_IFDIR, "pipe": stat.S_IFIFO}[f.kind] | 0o666
            self.st_size, self.st_ino, self.st_dev, self.st_nlink = f.size, f.index, current.volume, 1
            self.st_atime, self.st_mtime, self.st_ctime = ((x - 116444736000000000) / 1e7 for x in (f.atime, f.mtime, f.ctime))

    def get_blocking(fd):
        o = current.handles.get(current.fds[fd])
        if o is None:
            raise OSError(E.EBADF, "Bad file descriptor")
        if o.file.kind != "pipe":
            raise oserror(1)
        return not o.file.nonblocking

    def write(fd, data):
        o = current.handles[current.fds[fd]]
        current.calls.append("write")
        if o.file.nonblocking == "full":
            raise BlockingIOError(E.EAGAIN, "would block")
        o.file.put(o.file.size, bytes(data))
        return len(data)

    route("close", lambda fd: current.crt_close(fd))
    route("fstat", Stat)
    route("get_blocking", get_blocking)
    route("write", write)
    route("isatty", lambda fd: False)


def msvcrt():
    m = types.ModuleType("msvcrt")

    def open_osfhandle(handle, flags, /):
        if not isinstance(handle, int) or not isinstance(flags, int):
            raise TypeError("integers are required")
        try:
            return current.open_osfhandle(handle, flags)
        except KError as e:
            raise OSError(E.EBADF if e.code == 6 else errno_of(e.code), "Bad file descriptor")

    def get_osfhandle(fd, /):
        if type(fd) is not int:
            raise TypeError("an integer is required")
        if fd > 2 ** 31 - 1:
            raise OverflowError("Python int too large to convert to C int")
        if fd not in current.fds:
            raise OSError(E.EBADF, "Bad file descriptor")
        return current.fds[fd]

    m.open_osfhandle, m.get_osfhandle = open_osfhandle, get_osfhandle
    m.setmode = lambda fd, flags: 0
    return m


# -- ctypes -----------------------------------------------------------------------------------------------------------

def ctypes_binding():
    """Returns (names to patch temporarily in ctypes, fake wintypes)"""
    import ctypes.wintypes as real

    w = types.ModuleType("ctypes.wintypes")
    w.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
    dword, bool_, long_ = ctypes.c_uint32, ctypes.c_int32, ctypes.c_int32

    class FILETIME(ctypes.Structure):
        _fields_ = [("dwLowDateTime", dword), ("dwHighDateTime", dword)]

    w.DWORD = w.ULONG = dword
    w.BOOL, w.LONG = bool_, long_
    w.FILETIME = w._FILETIME = FILETIME
    w.LPDWORD = w.PDWORD = ctypes.POINTER(dword)
    w.LPFILETIME = w.PFILETIME = ctypes.POINTER(FILETIME)
    HANDLE = ctypes.c_void_p
    I64 = ctypes.c_int64

    class Overlapped(ctypes.Structure):         # the documented layout
        _fields_ = [("Internal", ctypes.c_size_t), ("InternalHigh", ctypes.c_size_t), ("Offset", dword), ("OffsetHigh", dword), ("hEvent", HANDLE)]

    class Security(ctypes.Structure):
        _fields_ = [("nLength", dword), ("lpSecurityDescriptor", HANDLE), ("bInheritHandle", bool_)]

    class Information(ctypes.Structure):
        _fields_ = [("attributes", dword), ("creation", FILETIME), ("access", FILETIME), ("write", FILETIME), ("volume", dword), ("sizeHigh", dword), ("sizeLow", dword),
                    ("links", dword), ("indexHigh", dword), ("indexLow", dword)]

    P = ctypes.POINTER
    functions = {}

    def native(name, restype, *argtypes, fail=0):
        def deco(f):
            def callback(*args):
                try:
                    return f(*args)
                except KError as e:
                    current.last_error = e.code
                    return fail
                except BaseException as e:
                    current.misuse.append("%s: %r" % (name, e))
                    return fail
            c = ctypes.CFUNCTYPE(restype, *argtypes)(callback)
            _keep.append(c)
            functions[name] = ctypes.cast(c, ctypes.c_void_p).value
            return f
        return deco

    def create(name, access, share, security, disposition, flags, template):
        inherit = bool(security and security[0].bInheritHandle)
        if security and security[0].lpSecurityDescriptor:
            current.misuse.append("security descriptor given")
        return current.CreateFile(name, access, share, inherit, disposition, flags)

    sec = P(Security)

    native("CreateFileW", HANDLE, ctypes.c_wchar_p, dword, dword, sec, dword, dword, HANDLE, fail=2 ** 64 - 1)(create)
    native("CreateFileA", HANDLE, ctypes.c_char_p, dword, dword, sec, dword, dword, HANDLE, fail=2 ** 64 - 1)(lambda n, *a: create(n.decode("ascii"), *a))
    native("GetLastError", dword)(lambda: current.last_error)

    @native("CloseHandle", bool_, HANDLE)
    def close(h):
        current.CloseHandle(h)
        return 1

    def when(x):
        return FILETIME(x & 0xFFFFFFFF, x >> 32)

    @native("GetFileInformationByHandle", bool_, HANDLE, P(Information))
    def information(h, p):
        f = current.GetFileInformationByHandle(h)
        i = p[0]
        i.attributes, i.volume, i.links = 0x80 | f.readonly, current.volume, 1
        i.creation, i.access, i.write = when(f.ctime), when(f.atime), when(f.mtime)
        i.sizeHigh, i.sizeLow = f.size >> 32, f.size & 0xFFFFFFFF
        i.indexHigh, i.indexLow = f.index >> 32, f.index & 0xFFFFFFFF
        return 1

    @native("GetFileSizeEx", bool_, HANDLE, P(I64))
    def size(h, p):
        p[0] = current.GetFileSizeEx(h)
        return 1

    @native("GetFileSize", dword, HANDLE, P(dword), fail=0xFFFFFFFF)
    def size32(h, p):
        n = current.GetFileSizeEx(h)
        if p:
            p[0] = n >> 32
        current.last_error = 0
        return n & 0xFFFFFFFF

    @native("SetFilePointerEx", bool_, HANDLE, I64, P(I64), dword)
    def pointer(h, offset, p, method):
        n = current.SetFilePointerEx(h, offset, method)
        if p:
            p[0] = n
        return 1

    @native("SetFilePointer", dword, HANDLE, ctypes.c_int32, P(ctypes.c_int32), dword, fail=0xFFFFFFFF)
    def pointer32(h, offset, p, method):
        if p:
            offset = (offset & 0xFFFFFFFF) | p[0] << 32
        n = current.SetFilePointerEx(h, offset, method)
        if p:
            p[0] = n >> 32
        current.last_error = 0
        return n & 0xFFFFFFFF

    @native("SetEndOfFile", bool_, HANDLE)
    def end(h):
        current.SetEndOfFile(h)
        return 1

    @native("WriteFile", bool_, HANDLE, ctypes.c_void_p, dword, P(dword), P(Overlapped))
    def write(h, data, n, p, o):
        p[0] = 0
        p[0] = current.WriteFile(h, ctypes.string_at(data, n) if n else b"")
        return 1

    @native("ReadFile", bool_, HANDLE, ctypes.c_void_p, dword, P(dword), P(Overlapped))
    def read(h, buf, n, p, o):
        p[0] = 0
        data = current.ReadFile(h, n)
        ctypes.memmove(buf, data, len(data))
        p[0] = len(data)
        return 1

    @native("FlushFileBuffers", bool_, HANDLE)
    def flush(h):
        current.FlushFileBuffers(h)
        return 1

    def check(o, reserved):
        if not o or reserved or o[0].hEvent:
            raise KError(87)
        return o[0].Offset | o[0].OffsetHigh << 32

    @native("LockFileEx", bool_, HANDLE, dword, dword, dword, dword, P(Overlapped))
    def lock(h, flags, reserved, low, high, o):
        current.LockFileEx(h, flags, low | high << 32, check(o, reserved))
        return 1

    @native("UnlockFileEx", bool_, HANDLE, dword, dword, dword, P(Overlapped))
    def unlock(h, reserved, low, high, o):
        current.UnlockFileEx(h, low | high << 32, check(o, reserved))
        return 1

    for other in ("ReadFileEx", "WriteFileEx", "_get_osfhandle", "_open_osfhandle"):
        native(other, ctypes.c_int)(lambda: 0)

    class Pointer(ctypes._CFuncPtr):
        _flags_ = ctypes._FUNCFLAG_CDECL
        _restype_ = ctypes.c_int

    class DLL:
        def __init__(self, name, *args, **kwargs):
            self._name = name

        def __getattr__(self, name):
            if name not in functions:
                raise AttributeError("function %r not found" % name)
            f = Pointer(functions[name])
            setattr(self, name, f)
            return f

        __getitem__ = __getattr__

    def win_error(code=None, descr=None):
        return oserror(current.last_error if code is None else code)

    class Loader:
        def __getattr__(self, name):
            return DLL(name)

    permanent = {"WinError": win_error, "GetLastError": lambda: current.last_error, "get_last_error": lambda: current.last_error, "FormatError": lambda code=None: "Error",
                 "windll": Loader(), "WinDLL": DLL, "WINFUNCTYPE": ctypes.CFUNCTYPE}
    return permanent, {"CDLL": DLL}, w


# -- pywin32 ----------------------------------------------------------------------------------------------------------

def pywin32_binding():
    pywintypes, win32api, win32con, win32file = (types.ModuleType(n) for n in ("pywintypes", "win32api", "win32con", "win32file"))

    class error(Exception):
        def __init__(self, *args):
            super().__init__(*args)
            self.winerror, self.funcname, self.strerror = (args + (None,) * 3)[:3]

    class PyHANDLE:
        def __init__(self, value=0):
            self.handle = value

        def __int__(self):
            return self.handle

        __index__ = __int__

        def __bool__(self):
            return bool(self.handle)

        def Detach(self):
            h, self.handle = self.handle, 0
            return h

        def Close(self):
            h, self.handle = self.handle, 0
            if h:
                current.CloseHandle(h)

        def __del__(self):
            try:
                self.Close()
            except Exception:
                pass

    class OVERLAPPED:
        def __init__(self):
            self.__dict__.update(Offset=0, OffsetHigh=0, hEvent=0, Internal=0, InternalHigh=0, object=None, dword=0)

        def __setattr__(self, name, value):
            if name not in self.__dict__:
                raise AttributeError(name)
            if name in ("Offset", "OffsetHigh") and not 0 <= value < 1 << 32:
                raise OverflowError("int too large to convert")
            self.__dict__[name] = value

    class SECURITY_ATTRIBUTES:
        def __init__(self):
            self.bInheritHandle, self.SECURITY_DESCRIPTOR = False, "default"

    def handle(h):
        if h is None:
            return 0
        if isinstance(h, PyHANDLE):
            return h.handle
        if not isinstance(h, int):
            raise TypeError("The object is not a PyHANDLE object")
        return h

    def api(name):
        def deco(f):
            def wrapper(*args):
                try:
                    return f(*args)
                except KError as e:
                    current.last_error = e.code
                    raise error(e.code, name, "Error %d" % e.code)
            wrapper.__name__ = name
            setattr(win32file, name, wrapper)
            return f
        return deco

    def signed(x):
        if not isinstance(x, int):
            raise TypeError("an integer is required")
        if not -1 << 31 <= x < 1 << 31:
            raise OverflowError("Python int too large to convert to C long")
        return x & 0xFFFFFFFF

    def unsigned(x):
        if not isinstance(x, int):
            raise TypeError("an integer is required")
        return x & 0xFFFFFFFF

    @api("CreateFile")
    def create(name, access, share, security, disposition, flags, template):
        if not isinstance(name, str):
            raise TypeError("The object is not a PyUnicode object")
        return PyHANDLE(current.CreateFile(name, unsigned(access), unsigned(share), bool(security is not None and security.bInheritHandle), disposition, unsigned(flags)))

    api("CloseHandle")(lambda h: h.Close() if isinstance(h, PyHANDLE) else current.CloseHandle(handle(h)))
    api("GetFileSize")(lambda h: current.GetFileSizeEx(handle(h)))
    api("FlushFileBuffers")(lambda h: current.FlushFileBuffers(handle(h)))

    @api("GetFileInformationByHandle")
    def information(h):
        f = current.GetFileInformationByHandle(handle(h))
        return (0x80 | f.readonly, object(), object(), object()) + tuple(ctypes.c_int32(n).value for n in (current.volume, f.size >> 32, f.size, 1, f.index >> 32, f.index))

    @api("SetFilePointer")
    def pointer(h, offset, method):
        if not -1 << 63 <= offset < 1 << 63:
            raise OverflowError("int too big to convert")
        return current.SetFilePointerEx(handle(h), offset, method)

    def end(h):                 # which reports failures in its result only
        try:
            current.SetEndOfFile(handle(h))
            return 1
        except KError as e:
            current.last_error = e.code
            return 0
    win32file.SetEndOfFile = end

    @api("WriteFile")
    def write(h, data, overlapped=None):
        return (0, current.WriteFile(handle(h), bytes(memoryview(data))))

    @api("ReadFile")
    def read(h, n, overlapped=None):
        if not isinstance(n, int):
            raise TypeError("Second param must be an integer or writeable buffer object")
        if n < 0 or n >= 1 << 32:
            raise ValueError("Can only read a positive number of bytes")
        return (0, current.ReadFile(handle(h), n))

    def start(o):
        if not isinstance(o, OVERLAPPED) or o.hEvent:
            raise TypeError("The object is not a PyOVERLAPPED object")
        return o.Offset | o.OffsetHigh << 32

    @api("LockFileEx")
    def lock(h, flags, low, high, overlapped):
        low, high = signed(low), signed(high)
        current.LockFileEx(handle(h), flags, low | high << 32, start(overlapped))

    @api("UnlockFileEx")
    def unlock(h, low, high, overlapped):
        low, high = signed(low), signed(high)
        current.UnlockFileEx(handle(h), low | high << 32, start(overlapped))

    def duplicate(source_process, h, target_process, access, inherit, options):
        try:
            return PyHANDLE(current.DuplicateHandle(handle(h), inherit))
        except KError as e:
            raise error(e.code, "DuplicateHandle", "Error")

    win32api.DuplicateHandle = duplicate
    win32api.GetCurrentProcess = lambda: -1
    win32api.CloseHandle = win32file.CloseHandle
    win32api.GetLastError = lambda: current.last_error
    win32api.error = win32file.error = pywintypes.error = error
    pywintypes.OVERLAPPED, pywintypes.SECURITY_ATTRIBUTES, pywintypes.HANDLE, pywintypes.HANDLEType = OVERLAPPED, SECURITY_ATTRIBUTES, PyHANDLE, PyHANDLE
    win32file.OVERLAPPED = OVERLAPPED
    constants = dict(GENERIC_READ=-0x80000000, GENERIC_WRITE=0x40000000, FILE_SHARE_READ=1, FILE_SHARE_WRITE=2, FILE_SHARE_DELETE=4, CREATE_NEW=1, CREATE_ALWAYS=2, OPEN_EXISTING=3, OPEN_ALWAYS=4,
                     TRUNCATE_EXISTING=5, FILE_ATTRIBUTE_READONLY=1, FILE_ATTRIBUTE_NORMAL=128, FILE_BEGIN=0, FILE_CURRENT=1, FILE_END=2, LOCKFILE_FAIL_IMMEDIATELY=1, LOCKFILE_EXCLUSIVE_LOCK=2,
                     FILE_FLAG_WRITE_THROUGH=-0x80000000, DUPLICATE_SAME_ACCESS=2, DUPLICATE_CLOSE_SOURCE=1)
    for m in (win32con, win32file):
        m.__dict__.update(constants)
    return {"pywintypes": pywintypes, "win32api": win32api, "win32con": win32con, "win32file": win32file}


def load(binding, import_module):
    """Imports rsfile anew, as if on Windows; returns (package as on Unix, package as on Windows)"""
    unix = import_module("rsfile")
    saved = {n: sys.modules.pop(n) for n in list(sys.modules) if n == "rsfile" or n.startswith("rsfile.")}
    import ctypes.wintypes
    import multiprocessing.synchronize  # noqa: imported as on Unix
    install_os()
    builtins.WindowsError = OSError
    fork, register = os.fork, os.register_at_fork
    permanent, temporary, wintypes = ctypes_binding()
    before = {k: getattr(ctypes, k) for k in temporary}
    for k, v in {**permanent, **temporary}.items():
        setattr(ctypes, k, v)
    old_wintypes = ctypes.wintypes
    sys.modules["ctypes.wintypes"] = ctypes.wintypes = wintypes
    sys.modules["msvcrt"] = msvcrt()
    for n in ("pywintypes", "win32api", "win32con", "win32file"):
        sys.modules[n] = None
    if binding == "pywin32":
        sys.modules.update(pywin32_binding())
    platform = sys.platform
    sys.platform = "win32"
    del os.fork, os.register_at_fork
    try:
        win = import_module("rsfile")
    finally:
        sys.platform = platform
        os.register_at_fork = register      # os.fork stays away: rsopen() wonders about it
        for k, v in before.items():
            setattr(ctypes, k, v)
        sys.modules["ctypes.wintypes"] = ctypes.wintypes = old_wintypes
    modules = {n: m for n, m in sys.modules.items() if n.startswith("rsfile.")}
    return unix, win, modules


def use(kernel):
    global current
    current = kernel
    return kernel
