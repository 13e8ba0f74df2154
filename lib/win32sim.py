"""A simulated Win32 system under the real Windows backend of rsfile: kernel objects, C runtime descriptors, ctypes or pywin32 binding.

The kernel follows the documentation of Win32 and [MS-FSA]: handles with their own pointer, access and share modes, byte-range
locks which belong to a handle and are mandatory, released only by the exact range (or by closing the handle), refused when
their end wraps around.  Functions of the ctypes binding are called through real C prototypes made from the declared types.
"""
import builtins, ctypes, ctypes.wintypes, errno, importlib, io, os, stat, sys, threading, types

GENERIC_READ, GENERIC_WRITE = 0x80000000, 0x40000000
NEG1 = (1 << 64) - 1
# what errno.h of the C runtime gives for system errors (the others: EINVAL)
ERRNO = {2: 2, 3: 2, 4: 24, 5: 13, 6: 9, 8: 12, 32: 13, 33: 13, 80: 17, 109: 32, 112: 28, 158: 13, 167: 13, 183: 17, 232: 32, 267: 20}
MESSAGES = {2: "The system cannot find the file specified", 5: "Access is denied", 6: "The handle is invalid", 33: "The process cannot access the file because another process has locked a portion of the file"}


class SimError(Exception):
    """The simulation itself was misused by the harness."""


class Node:
    def __init__(self, ident, data=b"", kind="file"):
        self.ident, self.data, self.kind = ident, bytearray(data), kind
        self.attributes = 128
        self.times = [131000000000000000 + ident * 12345678, 131000000000000000 + ident * 777, 131000000000000001 + ident]
        self.nonblocking, self.peer_open, self.capacity = False, True, 100


class Handle:
    def __init__(self, node, access, share, flags, inherit):
        self.node, self.access, self.share, self.flags, self.inherit = node, access, share, flags, inherit
        self.pos = 0


class Fail(Exception):
    def __init__(self, code):
        self.code = code


class Kernel:
    def __init__(self):
        self.cond = threading.Condition(threading.RLock())
        self.files, self.dirs = {}, set()
        self.handles, self.crt = {}, {}
        self.locks = []  # (node, handle, start, end, exclusive)
        self.calls = []  # (function, arguments, code)
        self.last = threading.local()
        self.rule = None  # rule(function, arguments) -> error code or None, consulted before each call
        self.after = None
        self.idents = 0
        self.crash = None
        self.serial = 0x1234
        self.max_write = None
        self.first_fd = 3  # 0 in a program whose standard streams are closed, or used through these streams
        self.no_index = False  # a file system without file numbers
        self.lingering = []  # locks which were left to be released by closing their handle
        self.waiting = 0
        self.opened = self.closed = 0

    # -- tools of the harness
    def add(self, path, data=b"", kind="file"):
        self.idents += 1
        n = self.files[path] = Node(self.idents, data, kind)
        return n

    def new_handle(self, node, access=GENERIC_READ | GENERIC_WRITE, share=7, flags=128, inherit=False):
        h = 0x44
        while h in self.handles:
            h += 4
        self.handles[h] = Handle(node, access, share, flags, inherit)
        self.opened += 1
        return h

    def new_fd(self, h, flags=0):
        fd = self.first_fd
        while fd in self.crt:
            fd += 1
        if fd >= 8192:
            raise OSError(errno.EMFILE, "Too many open files")
        self.crt[fd] = (h, flags)
        return fd

    # -- helpers
    def h(self, h):
        h = 0 if h is None else h
        if h not in self.handles:
            raise Fail(6)
        return self.handles[h]

    def enter(self, name, *args):
        self.calls.append([name, args, 0])
        if self.rule is not None:
            code = self.rule(name, args)
            if code:
                self.calls[-1][2] = code
                raise Fail(code)

    def blocked(self, hd, start, n, write):
        for (node, owner, a, b, exclusive) in self.locks:
            if node is hd.node and a < start + n and start < b:
                if exclusive and self.handles.get(owner) is not hd or write and not exclusive:
                    return True
        return False

    # -- system functions: return a value or raise Fail
    def CreateFile(self, path, access, share, security, disposition, flags):
        access, flags = access & 0xFFFFFFFF, flags & 0xFFFFFFFF
        self.enter("CreateFile", path, access, share, security, disposition, flags)
        if not path:
            raise Fail(3)
        if path in self.dirs:
            raise Fail(5)
        node = self.files.get(path)
        if node is None:
            if "/" in path and path.rsplit("/", 1)[0] not in self.dirs:
                raise Fail(3)
            if disposition in (3, 5):
                raise Fail(2)
            node = self.add(path)
            node.attributes = 1 if flags & 1 else 128
        else:
            if disposition == 1:
                raise Fail(80)
            if node.attributes & 1 and access & GENERIC_WRITE:
                raise Fail(5)
            for o in self.handles.values():
                if o.node is node:
                    if (access & GENERIC_READ and not o.share & 1 or access & GENERIC_WRITE and not o.share & 2
                            or o.access & GENERIC_READ and not share & 1 or o.access & GENERIC_WRITE and not share & 2):
                        raise Fail(32)
            if disposition in (2, 5):
                node.data[:] = b""
        return self.new_handle(node, access, share, flags, bool(security))

    def CloseHandle(self, h):
        self.enter("CloseHandle", h)
        self.h(h)
        self._close(h)

    def _close(self, h):
        hd = self.handles.pop(h)
        self.closed += 1
        self.lingering += [x[1:] for x in self.locks if x[1] == h]
        self.locks = [x for x in self.locks if x[1] != h]
        if not any(o.node is hd.node for o in self.handles.values()):
            pass
        self.cond.notify_all()

    def ReadFile(self, h, n):
        self.enter("ReadFile", h, n)
        hd = self.h(h)
        if not hd.access & GENERIC_READ:
            raise Fail(5)
        if hd.node.kind == "pipe":
            if not hd.node.data:
                if not hd.node.peer_open:
                    raise Fail(109)
                if hd.node.nonblocking:
                    raise Fail(232)
                raise Fail(109)
            r = bytes(hd.node.data[:n])
            del hd.node.data[:n]
            return r
        if n and self.blocked(hd, hd.pos, n, False):
            raise Fail(33)
        r = bytes(hd.node.data[hd.pos:hd.pos + n]) if hd.pos < len(hd.node.data) else b""
        hd.pos += len(r)
        return r

    def WriteFile(self, h, data):
        self.enter("WriteFile", h, data)
        hd = self.h(h)
        if not hd.access & GENERIC_WRITE:
            raise Fail(5)
        if hd.node.kind == "pipe":
            if not hd.node.peer_open:
                raise Fail(232)
            if hd.node.nonblocking and len(hd.node.data) + len(data) > hd.node.capacity:
                return 0
            hd.node.data += data
            return len(data)
        if self.max_write is not None:
            data = data[:self.max_write]
        if data and self.blocked(hd, hd.pos, len(data), True):
            raise Fail(33)
        if data:
            d = hd.node.data
            if hd.pos > len(d):
                d += bytes(hd.pos - len(d))  # undefined for Win32, zeros on NTFS
            d[hd.pos:hd.pos + len(data)] = data
            hd.pos += len(data)
        return len(data)

    def SetFilePointer(self, h, offset, method):
        self.enter("SetFilePointer", h, offset, method)
        hd = self.h(h)
        if hd.node.kind == "pipe":
            return 0
        if method not in (0, 1, 2):
            raise Fail(87)
        new = offset + (0, hd.pos, len(hd.node.data))[method]
        if new < 0:
            raise Fail(131)
        hd.pos = new
        return new

    def SetEndOfFile(self, h):
        self.enter("SetEndOfFile", h)
        hd = self.h(h)
        if not hd.access & GENERIC_WRITE:
            raise Fail(5)
        if hd.node.kind == "pipe":
            raise Fail(87)
        d = hd.node.data
        if hd.pos < len(d):
            del d[hd.pos:]
        else:
            d += bytes(hd.pos - len(d))  # undefined for Win32, zeros on NTFS

    def GetFileSize(self, h):
        self.enter("GetFileSize", h)
        hd = self.h(h)
        return 0 if hd.node.kind == "pipe" else len(hd.node.data)

    def FlushFileBuffers(self, h):
        self.enter("FlushFileBuffers", h)
        self.h(h)  # (Windows wants write access, so that sync() of a reader fails: not modelled)

    def GetInfo(self, h):
        self.enter("GetFileInformationByHandle", h)
        n = self.h(h).node
        ident = 0 if self.no_index else n.ident | 0x9000000080000000
        return [n.attributes, n.times[0], n.times[1], n.times[2], self.serial, len(n.data) >> 32, len(n.data) & 0xFFFFFFFF, 1, ident >> 32, ident & 0xFFFFFFFF]

    def LockFileEx(self, h, flags, start, length):
        self.enter("LockFileEx", h, flags, start, length)
        hd = self.h(h)
        if not hd.access & (GENERIC_READ | GENERIC_WRITE):
            raise Fail(5)
        if hd.node.kind == "pipe":
            raise Fail(87)
        if length and start + length - 1 > NEG1:
            raise Fail(307)
        excl = bool(flags & 2)
        while True:
            clash = any(n is hd.node and a < start + length and start < b and (excl or e) for (n, o, a, b, e) in self.locks)
            if not clash:
                break
            if flags & 1:
                raise Fail(33)
            self.waiting += 1
            ok = self.cond.wait(60)
            self.waiting -= 1
            if not ok:
                self.crash = "a blocking LockFileEx waited for a minute"
                raise Fail(33)
            hd = self.h(h)
        self.locks.append((hd.node, h, start, start + length, excl))

    def UnlockFileEx(self, h, start, length):
        self.enter("UnlockFileEx", h, start, length)
        hd = self.h(h)
        for i, (n, o, a, b, e) in enumerate(self.locks):
            if o == h and a == start and b == start + length:
                del self.locks[i]
                self.cond.notify_all()
                return
        raise Fail(158)

    # -- the C runtime
    def enter_crt(self, name, *args):
        try:
            self.enter(name, *args)
        except Fail as f:
            raise OSError(f.code, os.strerror(f.code))

    def crt_handle(self, fd):
        if fd not in self.crt:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return self.crt[fd][0]

    def get_osfhandle(self, fd):
        with self.cond:
            return self.crt_handle(fd)

    def open_osfhandle(self, h, flags):
        with self.cond:
            if not isinstance(h, int) or not isinstance(flags, int):
                raise TypeError("an integer is required")
            self.enter_crt("open_osfhandle", h, flags)
            if h not in self.handles:
                raise OSError(errno.EBADF, "Bad file descriptor")
            return self.new_fd(h, flags)

    def close(self, fd):
        with self.cond:
            h = self.crt_handle(fd)
            del self.crt[fd]
            try:
                self.CloseHandle(h)
            except Fail:
                raise OSError(errno.EBADF, "Bad file descriptor")

    def node_of_fd(self, fd):
        h = self.crt_handle(fd)
        if h not in self.handles:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return self.handles[h].node

    def fstat(self, fd):
        with self.cond:
            self.enter_crt("fstat", fd)
            n = self.node_of_fd(fd)
            mode = stat.S_IFIFO if n.kind == "pipe" else stat.S_IFREG | 0o666
            return types.SimpleNamespace(st_mode=mode, st_size=len(n.data), st_ctime=(n.times[0] - 116444736000000000) / 1e7,
                                         st_atime=(n.times[1] - 116444736000000000) / 1e7, st_mtime=(n.times[2] - 116444736000000000) / 1e7)

    def lseek(self, fd, off, whence):
        with self.cond:
            n = self.node_of_fd(fd)
            if n.kind == "pipe":
                raise OSError(errno.ESPIPE, "Illegal seek")
            return self.SetFilePointer(self.crt_handle(fd), off, whence)

    def get_blocking(self, fd):
        with self.cond:
            n = self.node_of_fd(fd)
            if n.kind != "pipe":
                raise OSError(errno.EBADF, "not a pipe")
            return not n.nonblocking

    def os_write(self, fd, data):
        with self.cond:
            n = self.node_of_fd(fd)
            if n.kind != "pipe":
                return self.WriteFile(self.crt_handle(fd), bytes(data))
            if not n.peer_open:
                raise OSError(errno.EINVAL, "Invalid argument")
            room = n.capacity - len(n.data)
            if not room and data:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            n.data += bytes(data[:room])
            self.calls.append(["os.write", (fd, len(data)), 0])
            return min(room, len(data))

    def isatty(self, fd):
        with self.cond:
            return fd in self.crt and False

    def last_error(self):
        return getattr(self.last, "code", 0)


K = Kernel()


def reset():
    """A new system; streams of the former one must all be gone."""
    global K
    K = Kernel()
    return K


# ---- binding for ctypes -------------------------------------------------------------------------------------------------

DWORD, LONG, BOOL, HANDLE = ctypes.c_uint32, ctypes.c_int32, ctypes.c_int32, ctypes.c_void_p


class FILETIME(ctypes.Structure):
    _fields_ = [("dwLowDateTime", DWORD), ("dwHighDateTime", DWORD)]


def fake_wintypes():
    m = types.ModuleType("ctypes.wintypes")
    m.__dict__.update({k: v for k, v in vars(ctypes.wintypes).items() if not k.startswith("__")})
    for k in ("DWORD", "ULONG", "UINT"):
        setattr(m, k, DWORD)
    for k in ("LONG", "BOOL", "INT"):
        setattr(m, k, LONG)
    m.LARGE_INTEGER = m._LARGE_INTEGER = ctypes.c_int64
    m.ULARGE_INTEGER = m._ULARGE_INTEGER = ctypes.c_uint64
    m.FILETIME = FILETIME
    m.HANDLE = HANDLE
    return m


def last(code):
    K.last.code = code


def winerror(code=None):
    if code is None:
        code = K.last_error()
    e = OSError(ERRNO.get(code, 22), MESSAGES.get(code, "system error %d" % code))
    e.winerror = code
    return e


class Func:
    """One function of a DLL: converts its arguments through a real C prototype."""

    def __init__(self, name, impl):
        self.name, self.impl = name, impl
        self.restype, self.argtypes = ctypes.c_int, None
        self.proto = None

    def __call__(self, *args):
        if self.argtypes is None:
            raise SimError("%s called without argtypes" % self.name)
        if len(args) != len(self.argtypes):
            raise TypeError("this function takes %d arguments (%d given)" % (len(self.argtypes), len(args)))
        key = (self.restype, tuple(self.argtypes))
        if self.proto is None or self.proto[0] != key:
            self.proto = (key, ctypes.CFUNCTYPE(self.restype, *self.argtypes)(self.guarded))
        self.trouble = None
        return self.proto[1](*args)

    def guarded(self, *args):
        try:
            with K.cond:
                try:
                    r = self.impl(*args)
                    last(0)
                    return 1 if r is None else r
                except Fail as f:
                    last(f.code)
                    if self.name.startswith("CreateFile"):
                        return NEG1
                    return 0
        except BaseException as e:
            K.crash = "%s: %r" % (self.name, e)
            return 0


def put(pointer, value):
    if not pointer:
        raise SimError("NULL pointer")
    pointer[0] = value


def seen(name, args):
    """Records structure arguments that cannot be told from the values."""
    K.calls.append([name, args, 0])


def range_of(lo, hi, ov):
    o = ov[0]
    return (o.Offset & 0xFFFFFFFF) | (o.OffsetHigh & 0xFFFFFFFF) << 32, (lo & 0xFFFFFFFF) | (hi & 0xFFFFFFFF) << 32


class Kernel32:
    def __init__(self):
        self.functions = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in self.functions:
            self.functions[name] = Func(name, getattr(type(self), "do_" + name, None) and getattr(self, "do_" + name))
        return self.functions[name]

    def do_GetLastError(self):
        return K.last_error()

    def do_CreateFileW(self, path, access, share, sec, disp, flags, template):
        if isinstance(path, bytes):
            path = path.decode()
        return K.CreateFile(path, access, share, bool(sec) and bool(sec[0].bInheritHandle), disp, flags)
    do_CreateFileA = do_CreateFileW

    def do_CloseHandle(self, h):
        K.CloseHandle(h)

    def do_ReadFile(self, h, address, n, done, ov):
        r = K.ReadFile(h, n)
        ctypes.memmove(address, r, len(r))
        put(done, len(r))

    def do_WriteFile(self, h, address, n, done, ov):
        put(done, K.WriteFile(h, ctypes.string_at(address, n)))

    def do_SetFilePointerEx(self, h, offset, new, method):
        r = K.SetFilePointer(h, offset, method)
        if new:
            put(new, r)

    def do_SetEndOfFile(self, h):
        K.SetEndOfFile(h)

    def do_FlushFileBuffers(self, h):
        K.FlushFileBuffers(h)

    def do_GetFileSizeEx(self, h, size):
        put(size, K.GetFileSize(h))

    def do_GetFileInformationByHandle(self, h, info):
        v = K.GetInfo(h)
        o = info[0]
        o.dwFileAttributes = v[0]
        for f, t in zip(("ftCreationTime", "ftLastAccessTime", "ftLastWriteTime"), v[1:4]):
            getattr(o, f).dwLowDateTime, getattr(o, f).dwHighDateTime = t & 0xFFFFFFFF, t >> 32
        o.dwVolumeSerialNumber, o.nFileSizeHigh, o.nFileSizeLow, o.nNumberOfLinks, o.nFileIndexHigh, o.nFileIndexLow = v[4:]

    def do_LockFileEx(self, h, flags, reserved, lo, hi, ov):
        if reserved:
            raise Fail(87)
        start, length = range_of(lo, hi, ov)
        K.LockFileEx(h, flags, start, length)

    def do_UnlockFileEx(self, h, reserved, lo, hi, ov):
        if reserved:
            raise Fail(87)
        start, length = range_of(lo, hi, ov)
        K.UnlockFileEx(h, start, length)


# ---- binding for pywin32 ------------------------------------------------------------------------------------------------

class PyError(Exception):
    """pywintypes.error: not an OSError, and without errno."""

    def __init__(self, winerror, funcname="", strerror=""):
        Exception.__init__(self, winerror, funcname, strerror)
        self.winerror, self.funcname, self.strerror = winerror, funcname, strerror


class PyHANDLE:
    def __init__(self, h):
        self.handle = h

    def __int__(self):
        return self.handle or 0

    __index__ = __int__

    def Detach(self):
        h, self.handle = self.handle, None
        return h

    def Close(self):
        h = self.Detach()
        if h:
            sys_call("CloseHandle", K.CloseHandle, h)

    def __del__(self):
        if self.handle and self.handle in K.handles:
            with K.cond:
                K._close(self.handle)


class PyOverlapped:
    Offset = OffsetHigh = hEvent = Internal = InternalHigh = 0


class PySecurity:
    bInheritHandle = False
    SECURITY_DESCRIPTOR = None


def sys_call(name, f, *args):
    with K.cond:
        try:
            r = f(*args)
            last(0)
            return r
        except Fail as e:
            last(e.code)
            raise PyError(e.code, name, MESSAGES.get(e.code, "system error %d" % e.code))


def c_long(x):
    if not isinstance(x, int):
        raise TypeError("an integer is required")
    if not -(1 << 31) <= x < 1 << 31:
        raise OverflowError("Python int too large to convert to C long")
    return x


def c_ulong(x):
    if not 0 <= x < 1 << 32:
        raise OverflowError("Python int too large to convert to C unsigned long")
    return x


def c_dword(x):
    if not -(1 << 31) <= x < 1 << 32:
        raise OverflowError("Python int too large to convert to C long")
    return x & 0xFFFFFFFF


def to_signed(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def fake_pywin32():
    con, api, fil, pyt = [types.ModuleType(n) for n in ("win32con", "win32api", "win32file", "pywintypes")]
    api.error = fil.error = pyt.error = PyError
    pyt.OVERLAPPED, pyt.SECURITY_ATTRIBUTES = PyOverlapped, PySecurity
    pyt.HANDLE = PyHANDLE
    for m in (con, fil):
        m.GENERIC_READ, m.GENERIC_WRITE = -2147483648, 1073741824
        m.FILE_SHARE_READ, m.FILE_SHARE_WRITE, m.FILE_SHARE_DELETE = 1, 2, 4
        m.CREATE_NEW, m.CREATE_ALWAYS, m.OPEN_EXISTING, m.OPEN_ALWAYS, m.TRUNCATE_EXISTING = 1, 2, 3, 4, 5
        m.FILE_ATTRIBUTE_READONLY, m.FILE_ATTRIBUTE_NORMAL = 1, 128
        m.FILE_BEGIN, m.FILE_CURRENT, m.FILE_END = 0, 1, 2
    con.LOCKFILE_EXCLUSIVE_LOCK, con.LOCKFILE_FAIL_IMMEDIATELY, con.FILE_FLAG_WRITE_THROUGH = 2, 1, -2147483648
    con.DUPLICATE_SAME_ACCESS = 2
    api.GetLastError = lambda: K.last_error()
    api.GetCurrentProcess = lambda: -1

    def DuplicateHandle(sp, h, tp, access, inherit, options):
        def dup():
            o = K.h(int(h))
            n = K.new_handle(o.node, o.access, o.share, o.flags, bool(inherit))
            K.handles[n] = o  # the same file object
            return n
        return PyHANDLE(sys_call("DuplicateHandle", dup))
    api.DuplicateHandle = DuplicateHandle

    def CreateFile(path, access, share, sec, disp, flags, template):
        if not isinstance(path, (str, bytes)):
            raise TypeError("The object is not a PyUnicode object")
        return PyHANDLE(sys_call("CreateFile", K.CreateFile, path, c_dword(access), c_dword(share), sec is not None and bool(sec.bInheritHandle), c_dword(disp), c_dword(flags)))

    def CloseHandle(h):
        if isinstance(h, PyHANDLE):
            return h.Close()
        sys_call("CloseHandle", K.CloseHandle, h)

    def ReadFile(h, n, ov=None):
        return 0, sys_call("ReadFile", K.ReadFile, int(h), n)

    def WriteFile(h, data, ov=None):
        return 0, sys_call("WriteFile", K.WriteFile, int(h), bytes(data))

    def SetEndOfFile(h):
        try:
            sys_call("SetEndOfFile", K.SetEndOfFile, int(h))
        except PyError:
            return 0
        return 1

    def GetFileInformationByHandle(h):
        v = sys_call("GetFileInformationByHandle", K.GetInfo, int(h))
        return (to_signed(v[0]), "<PyTime>", "<PyTime>", "<PyTime>") + tuple(to_signed(x) for x in v[4:])

    def LockFileEx(h, flags, lo, hi, ov):
        lo, hi = c_long(lo) & 0xFFFFFFFF, c_long(hi) & 0xFFFFFFFF
        sys_call("LockFileEx", K.LockFileEx, int(h), flags, c_ulong(ov.Offset) | c_ulong(ov.OffsetHigh) << 32, lo | hi << 32)

    def UnlockFileEx(h, lo, hi, ov):
        lo, hi = c_long(lo) & 0xFFFFFFFF, c_long(hi) & 0xFFFFFFFF
        sys_call("UnlockFileEx", K.UnlockFileEx, int(h), c_ulong(ov.Offset) | c_ulong(ov.OffsetHigh) << 32, lo | hi << 32)
    for f in (CreateFile, CloseHandle, ReadFile, WriteFile, SetEndOfFile, GetFileInformationByHandle, LockFileEx, UnlockFileEx):
        setattr(fil, f.__name__, f)
    fil.GetFileSize = lambda h: sys_call("GetFileSize", K.GetFileSize, int(h))

    def SetFilePointer(h, offset, method):
        if not -(1 << 63) <= offset < 1 << 63:
            raise OverflowError("int too big to convert")
        return sys_call("SetFilePointer", K.SetFilePointer, int(h), offset, method)
    fil.SetFilePointer = SetFilePointer
    fil.FlushFileBuffers = lambda h: sys_call("FlushFileBuffers", K.FlushFileBuffers, int(h))
    return {"win32con": con, "win32api": api, "win32file": fil, "pywintypes": pyt}


# ---- loading ------------------------------------------------------------------------------------------------------------

class Loading:
    """While active, modules get imported as on Windows."""

    def __init__(self, binding):
        self.binding = binding

    def __enter__(self):
        import _pyio, locale, array, contextlib, functools, operator, threading, time, multiprocessing, multiprocessing.synchronize, multiprocessing.connection, warnings  # noqa
        self.saved = {k: sys.modules.get(k) for k in ("os", "msvcrt", "ctypes.wintypes", "win32con", "win32api", "win32file", "pywintypes")}
        self.platform, self.wintypes = sys.platform, ctypes.wintypes
        fos = types.ModuleType("os")
        fos.__dict__.update({k: v for k, v in vars(os).items() if k not in ("fork", "register_at_fork", "forkpty", "__name__")})
        fos.fstat = lambda fd: K.fstat(fd)
        fos.close = lambda fd: K.close(fd)
        fos.lseek = lambda *a: K.lseek(*a)
        fos.isatty = lambda fd: K.isatty(fd)
        fos.write = lambda fd, d: K.os_write(fd, d)
        fos.get_blocking = lambda fd: K.get_blocking(fd)
        for name in ("open", "read", "dup", "dup2", "ftruncate", "fsync", "set_inheritable", "set_blocking", "pread", "pwrite", "unlink", "remove"):
            fos.__dict__[name] = None
        ms = types.ModuleType("msvcrt")
        ms.get_osfhandle = lambda fd: K.get_osfhandle(fd)
        ms.open_osfhandle = lambda h, flags: K.open_osfhandle(h, flags)
        self.names = {"os": fos, "msvcrt": ms, "ctypes.wintypes": fake_wintypes()}
        if self.binding == "pywin32":
            self.names.update(fake_pywin32())
        else:
            self.names.update(win32con=None)  # import raises ImportError
        sys.modules.update(self.names)
        sys.modules["msvcrt"] = ms
        ctypes.wintypes = self.names["ctypes.wintypes"]
        ctypes.WinDLL = lambda name: Kernel32()
        ctypes.WinError, ctypes.GetLastError, ctypes.WINFUNCTYPE = winerror, lambda: K.last_error(), ctypes.CFUNCTYPE
        self.cdll, ctypes.CDLL = ctypes.CDLL, lambda name: Kernel32()
        builtins.WindowsError = OSError
        sys.platform = "win32"
        return self

    def __exit__(self, *exc):
        sys.platform = self.platform
        ctypes.CDLL = self.cdll
        for k, v in self.saved.items():
            if k in ("msvcrt",):
                continue  # rsfile imports it again at run time
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        ctypes.wintypes = self.wintypes


def load(binding):
    """rsfile, as imported on Windows."""
    from lib import vf
    assert "rsfile" not in sys.modules
    with Loading(binding):
        return vf.import_rsfile()


def load_file(name):
    from lib import vf
    path = os.path.join(vf.SRC, "rsfile", "rsbackend", name + ".py")
    m = types.ModuleType("sim_" + name)
    with open(path) as f:
        exec(compile(f.read(), path, "exec"), m.__dict__)
    return m


def load_raw():
    with Loading("ctypes"):
        return load_file("raw_win32_ctypes")


def load_defines():
    return load_file("raw_win32_defines")
