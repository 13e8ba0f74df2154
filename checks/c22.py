"""C22: Win32 value conversions are exact."""
import importlib.util, math, os, sys, types
from fractions import Fraction
from lib import vf

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real conversion functions run on boundary, bit-pattern and random values, each result judged by an oracle in exact rational arithmetic written from the Win32 "
             "definitions; the structures and constants of the ctypes binding are compared with the ones of the Win32 headers (types of the right width being given to ctypes)")
NOTE = "8 and 16-bit words are enumerated entirely; 32 and 64-bit ones are sampled around powers of two and at random. Times: error bounds of one float, exactness being impossible."
RULE = "one conversion; distinct by (function, word size, position of the highest bit and of the boundary, sign); non-trivial unless the value is 0 or 1."
BUDGET = {"quick": 6, "thorough": 60}
TIMEOUT = {"quick": 90, "thorough": 600}
MIN = {"joins": 20000, "splits": 20000, "signs": 20000, "times": 20000, "errors": 3000, "structures": 3}

EPOCH = 116444736000000000
ERRNO = {2: 2, 3: 2, 4: 24, 5: 13, 6: 9, 7: 12, 8: 12, 9: 12, 10: 7, 11: 8, 15: 2, 16: 13, 17: 18, 18: 2, 53: 2, 65: 13, 67: 2, 80: 17, 82: 13, 83: 13, 89: 11, 108: 13, 109: 32, 112: 28, 114: 9,
         128: 10, 129: 10, 130: 9, 132: 13, 145: 41, 158: 13, 161: 2, 164: 11, 167: 13, 183: 17, 206: 2, 215: 11, 1816: 12}
ERRNO.update({c: 13 for c in range(19, 37)})
ERRNO.update({c: 8 for c in range(188, 203)})
LATER = {232: {22, 32}, 267: {22, 20}}  # added to the table of CPython since


def shards(tier, seed):
    return [("w%d" % i, {"i": i}) for i in range(4)]


class Odd(Exception):
    pass


def value(rng, bits):
    k = rng.randrange(6)
    top = 1 << bits
    if k == 0:
        v = (1 << rng.randrange(bits + 1)) + rng.choice([-2, -1, 0, 1, 2])
    elif k == 1:
        v = rng.getrandbits(bits)
    elif k == 2:
        v = rng.getrandbits(rng.randrange(1, bits + 1))
    elif k == 3:
        v = top - 1 - rng.getrandbits(rng.randrange(1, bits))
    elif k == 4:  # a half full of ones or zeros
        h = bits // 2
        a, b = [rng.choice([0, 1, (1 << h) - 1, 1 << (h - 1), (1 << (h - 1)) - 1, rng.getrandbits(h)]) for _ in range(2)]
        v = a << h | b
    else:
        v = (1 << rng.randrange(1, bits + 1)) - (1 << rng.randrange(bits))
    return min(max(v, 0), top - 1)


def same(name, args, got, want):
    if got != want or type(got) is not type(want) or isinstance(got, tuple) and any(type(x) is not int for x in got):
        raise Odd("%s%s gives %r instead of %r" % (name, args, got, want))


def call(f, name, *args):
    try:
        return f(*args)
    except Exception as e:
        raise Odd("%s%s raises %r" % (name, args, e))


def check_value(ctx, u, rng, bits, v):
    """v: a value of 2*bits bits."""
    m = (1 << bits) - 1
    lo, hi = v % (m + 1), v // (m + 1)
    a = (v,) if bits == 32 and rng.random() < 0.7 else (v, bits)
    got = call(u.pyint_to_double_dwords, "pyint_to_double_dwords", *a)
    same("pyint_to_double_dwords", a, tuple(got), (lo, hi))
    ctx.count("splits")

    def signed(x):
        return x - m - 1 if x > m // 2 and rng.random() < 0.5 else x
    a = (signed(lo), signed(hi))
    if not (bits == 32 and rng.random() < 0.7):
        a += (bits,)
    got = call(u.double_dwords_to_pyint, "double_dwords_to_pyint", *a)
    same("double_dwords_to_pyint", a, got, v)
    ctx.count("joins")
    for x in (lo, hi):
        s = x - m - 1 if x >= (m + 1) // 2 else x
        a = (x,) if bits == 32 and rng.random() < 0.7 else (x, bits)
        same("unsigned_to_signed", a, call(u.unsigned_to_signed, "unsigned_to_signed", *a), s)
        a = (s,) + a[1:]
        same("signed_to_unsigned", a, call(u.signed_to_unsigned, "signed_to_unsigned", *a), x)
        a = (x,) + a[1:]
        same("signed_to_unsigned", a, call(u.signed_to_unsigned, "signed_to_unsigned", *a), x)
        ctx.count("signs")
    ctx.case(("value", bits, v.bit_length(), (v & -v).bit_length(), lo > m // 2, hi > m // 2), v > 1)


def refused(ctx, u, rng):
    v = -value(rng, 64) - 1
    try:
        r = u.pyint_to_double_dwords(v)
    except ValueError:
        ctx.count("refused")
        return
    raise Odd("pyint_to_double_dwords(%d) gives %r instead of raising ValueError" % (v, r))


def ulp(x):
    return Fraction(math.ulp(float(x)))


def check_time(ctx, u, rng):
    if rng.random() < 0.5:
        t = value(rng, 63) if rng.random() < 0.5 else EPOCH + rng.choice([-1, 1]) * value(rng, rng.choice([20, 40, 54, 56]))
        lo, hi = t & 0xFFFFFFFF, t >> 32
        got = call(u.win32_filetime_to_python_timestamp, "win32_filetime_to_python_timestamp", lo, hi)
        exact = Fraction(t - EPOCH, 10 ** 7)
        if type(got) is not float or abs(Fraction(got) - exact) > 2 * ulp(got):
            raise Odd("win32_filetime_to_python_timestamp(%d, %d) gives %r instead of %r" % (lo, hi, got, float(exact)))
        if got >= -11644473600:
            back = call(u.python_timestamp_to_win32_filetime, "python_timestamp_to_win32_filetime", got)
            b = back[0] + (back[1] << 32)
            if abs(b - t) > ulp(got) * 10 ** 7 * 2 + 2:
                raise Odd("FILETIME %d comes back as %d through the timestamp %r" % (t, b, got))
        ctx.case(("filetime", t.bit_length(), t < EPOCH), True)
    else:
        k = rng.randrange(4)
        if k == 0:
            ts = rng.choice([-1, 1]) * value(rng, 33)
        elif k == 1:
            ts = rng.uniform(-11644473600, 4e11)
        elif k == 2:
            ts = rng.randrange(0, 1 << 33) + rng.choice([0.5, 0.25, 0.1, 0.999999, 0.0000001, 0.123456])
        else:
            ts = rng.uniform(0, 4e9)
        if ts < -11644473600:
            ts = -ts
        got = call(u.python_timestamp_to_win32_filetime, "python_timestamp_to_win32_filetime", ts)
        same("python_timestamp_to_win32_filetime", (ts,), type(got), tuple)
        lo, hi = got
        if not (0 <= lo < 1 << 32 and 0 <= hi < 1 << 32):
            raise Odd("python_timestamp_to_win32_filetime(%r) gives %r" % (ts, got))
        exact = Fraction(ts) * 10 ** 7 + EPOCH
        tol = 1 if isinstance(ts, int) else 1 + ulp(ts * 1e7)
        if isinstance(ts, int) and lo + (hi << 32) != exact or abs(lo + (hi << 32) - exact) > tol:
            raise Odd("python_timestamp_to_win32_filetime(%r) gives %d instead of %d" % (ts, lo + (hi << 32), exact))
        back = call(u.win32_filetime_to_python_timestamp, "win32_filetime_to_python_timestamp", lo, hi)
        if abs(Fraction(back) - Fraction(ts)) > Fraction(2, 10 ** 7) + 2 * ulp(ts):
            raise Odd("the timestamp %r comes back as %r" % (ts, back))
        ctx.case(("timestamp", type(ts).__name__, int(abs(ts)).bit_length(), ts < 0), True)
    ctx.count("times")


def check_errors(ctx, u, rng, codes):
    for c in codes:
        got = call(u.winerror_to_errno, "winerror_to_errno", c)
        if got not in LATER.get(c, {ERRNO.get(c, 22)}):
            if 10000 <= c < 12000 and got == c:
                continue
            raise Odd("winerror_to_errno(%d) gives %r instead of %d" % (c, got, ERRNO.get(c, 22)))
        ctx.count("errors")
        ctx.case(("error", c if c in ERRNO else c // 500), True)


# offsets of the fields in the Win32 headers: (name, offset, size) for a 64-bit process
LAYOUT = {
    "OVERLAPPED": [("Internal", 0, 8), ("InternalHigh", 8, 8), ("Offset", 16, 4), ("OffsetHigh", 20, 4)],
    "BY_HANDLE_FILE_INFORMATION": [("dwFileAttributes", 0, 4), ("ftCreationTime", 4, 8), ("ftLastAccessTime", 12, 8), ("ftLastWriteTime", 20, 8), ("dwVolumeSerialNumber", 28, 4),
                                   ("nFileSizeHigh", 32, 4), ("nFileSizeLow", 36, 4), ("nNumberOfLinks", 40, 4), ("nFileIndexHigh", 44, 4), ("nFileIndexLow", 48, 4)],
    "SECURITY_ATTRIBUTES": [("nLength", 0, 4), ("lpSecurityDescriptor", 8, 8), ("bInheritHandle", 16, 4)],
}
SIZES = {"OVERLAPPED": 32, "BY_HANDLE_FILE_INFORMATION": 52, "SECURITY_ATTRIBUTES": 24}  # what the system may read or write
CONST = dict(ERROR_NOT_SUPPORTED=50, ERROR_IO_PENDING=997, ERROR_MORE_DATA=234, GENERIC_READ=0x80000000, GENERIC_WRITE=0x40000000, FILE_SHARE_READ=1, FILE_SHARE_WRITE=2, FILE_SHARE_DELETE=4,
             CREATE_NEW=1, CREATE_ALWAYS=2, OPEN_EXISTING=3, OPEN_ALWAYS=4, TRUNCATE_EXISTING=5, FILE_ATTRIBUTE_NORMAL=128, FILE_ATTRIBUTE_READONLY=1, FILE_BEGIN=0, FILE_CURRENT=1, FILE_END=2,
             LOCKFILE_EXCLUSIVE_LOCK=2, LOCKFILE_FAIL_IMMEDIATELY=1, FILE_FLAG_WRITE_THROUGH=0x80000000, FILE_FLAG_DELETE_ON_CLOSE=0x04000000, FILE_FLAG_NO_BUFFERING=0x20000000)


def check_structures(ctx):
    import ctypes
    from lib import win32sim
    raw = win32sim.load_raw()
    for name, fields in LAYOUT.items():
        st = getattr(raw, name)
        if ctypes.sizeof(st) < SIZES[name]:
            raise Odd("%s has %d bytes instead of %d" % (name, ctypes.sizeof(st), SIZES[name]))
        for f, off, size in fields:
            d = getattr(st, f)
            if (d.offset, d.size) != (off, size):
                raise Odd("%s.%s lies at %d on %d bytes instead of %d on %d" % (name, f, d.offset, d.size, off, size))
        ctx.count("structures")
        ctx.case(("structure", name), True)
    defs = win32sim.load_defines()
    for k, v in CONST.items():
        if getattr(defs, k, v) != v:
            raise Odd("%s is %r instead of %d" % (k, getattr(defs, k), v))
        ctx.case(("constant", k), True)


def run(ctx, i):
    vf.import_rsfile()
    from rsfile.rsbackend import _utilities as u
    rng = ctx.rng
    n = 0

    def guard(mech, f, *a):
        try:
            f(*a)
        except Odd as e:
            ctx.violation(mech, str(e))
    if getattr(u, "MAX_DWORD", 2 ** 32 - 1) != 2 ** 32 - 1:
        ctx.violation("values", "MAX_DWORD is %r" % u.MAX_DWORD)
    if i == 0:
        guard("structures", check_structures, ctx)
        for v in range(1 << 16):
            guard("values", check_value, ctx, u, rng, 8, v)
    guard("errors", check_errors, ctx, u, rng, range(i * 700, i * 700 + 700) if i < 3 else list(range(2100, 13000)) + [1 << 31, -1, 0x80070005])
    while ctx.more(n, 60, 10 ** 9):
        if n % 100 == 0:
            ctx.crumb("batch %d" % n)
        for _ in range(100):
            guard("values", check_value, ctx, u, rng, 32, value(rng, 64))
            b = rng.choice([8, 16, 64])
            guard("values", check_value, ctx, u, rng, b, value(rng, 2 * b))
            guard("times", check_time, ctx, u, rng)
            guard("times", check_time, ctx, u, rng)
        guard("values", refused, ctx, u, rng)
        n += 1
