"""ctypes access to the preloaded monitor (shim/vshim.c)."""
import ctypes, os, struct

(OPEN, CLOSE, READ, WRITE, LSEEK, FCNTL, FTRUNC, FSYNC, FDSYNC, DUP, FSTAT, IOCTL) = range(1, 13)
NAMES = {1: "open", 2: "close", 3: "read", 4: "write", 5: "lseek", 6: "fcntl", 7: "ftruncate", 8: "fsync", 9: "fdatasync", 10: "dup"}
(ERR, SHORT, DELAY_BEFORE, DELAY_AFTER, STALL_BEFORE, STALL_AFTER, ERR_AFTER, SHORT_RANDOM) = range(1, 9)
FMT = "<QQQqqqQQiiiiiiii"
SZ = struct.calcsize(FMT)
_lib = None


def lib():
    global _lib
    if _lib is None:
        l = ctypes.PyDLL(os.environ["VF_SHIM"])  # short calls: keep the GIL
        l.vs_count.restype = l.vs_total.restype = ctypes.c_uint64
        l.vs_recs.restype = ctypes.c_void_p
        l.vs_rule.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int64,
                              ctypes.c_int, ctypes.c_int64, ctypes.c_int]
        l.vs_rule_hits.restype = l.vs_rule_stalled.restype = ctypes.c_int64
        l.vs_perturb.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
        l.vs_prefix.argtypes = [ctypes.c_char_p]
        if l.vs_present() != SZ:
            raise RuntimeError("monitor not preloaded")
        _lib = l
    return _lib


class Rec:
    __slots__ = "seq t0 t1 a b ret dev ino pid tid call fd err inj x1 x2".split()

    def __init__(self, t):
        for k, v in zip(self.__slots__, t):
            setattr(self, k, v)

    def __repr__(self):
        return "<%s fd=%d a=%d b=%d ret=%d err=%d inj=%d x1=%d x2=%d pid=%d tid=%d>" % (
            NAMES.get(self.call), self.fd, self.a, self.b, self.ret, self.err, self.inj, self.x1, self.x2, self.pid, self.tid)


def start(prefix):
    lib().vs_prefix(os.fsencode(prefix))
    lib().vs_reset()
    lib().vs_log(1)


def records(frm=0):
    n = lib().vs_count()
    if n <= frm:
        return []
    data = ctypes.string_at(lib().vs_recs() + frm * SZ, (n - frm) * SZ)
    return [Rec(t) for t in struct.iter_unpack(FMT, data) if t[0]]


def mark():
    return lib().vs_count()


def reset():
    lib().vs_reset()


def overflowed():
    return lib().vs_total() > lib().vs_count()


class Rule:
    def __init__(self, call, action, arg=0, skip=0, count=1, fd=-1, st=None, x1=-1, pid=0, tid=0):
        self.i = lib().vs_rule(call, fd, st.st_dev if st else 0, st.st_ino if st else 0, skip, count, action, arg, x1)
        if self.i < 0:
            raise RuntimeError("no rule slot")
        if pid or tid:
            lib().vs_rule_who(self.i, pid, tid)

    def hits(self):
        return lib().vs_rule_hits(self.i)

    def stalled(self):
        return lib().vs_rule_stalled(self.i)

    def release(self):
        lib().vs_rule_release(self.i)

    def clear(self):
        if self.i >= 0:
            lib().vs_rule_clear(self.i)
            self.i = -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.clear()


def clear_rules():
    lib().vs_rule_clear(-1)


def perturb(seed, per_mille, max_us):
    lib().vs_perturb(seed & 0xFFFFFFFFFFFF, per_mille, max_us)
