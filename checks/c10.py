"""C10: binary streams behave as one byte array with one position."""
import array, ctypes, io, mmap, os, random, traceback
from lib import vf

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every result, exception, position and flushed state of long random operation sequences is compared online with a reference "
             "byte array with one position, and the file itself is read through an independent descriptor")
NOTE = "Sampled operation sequences, buffer sizes and contents; the position of an append stream with unflushed data is not judged (the standard library leaves it open)."
RULE = ("one operation of a sequence on a binary stream, at one layer, buffering, mode and origin (path, descriptor, opener), judged against the model; distinct by "
        "(layer, buffering class, mode, operation, argument class, previous operation, outcome class); non-trivial when it moves data, the position or the size, or is refused.")
BUDGET = {"quick": 11, "thorough": 240}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"ops": 5000, "independent_reads": 500, "refusals": 200}

MODES = ["rb", "r+b", "wb", "w+b", "ab", "a+b", "xb", "x+b", "RNB", "RWNB", "WEB", "RWEB", "AB", "RAB", "WCB", "RWCB", "WB", "RWB", "RB", "AEB", "RAEB", "RWSB", "RWIB", "WNB", "ANB"]
SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 1000, 4096, 8192, 20000]
BUFS = [0, 0, 0, 1, 2, 3, 5, 8, 16, 17, 64, 100, 1024, 4096, 8192, -1, None]


def shards(tier, seed):
    return [("b%d" % i, {"i": i}) for i in range(8)]


class Model:
    def __init__(self, data, pos, r, w, a):
        self.d, self.pos, self.r, self.w, self.a = bytearray(data), pos, r, w, a

    def rest(self):
        return bytes(self.d[self.pos:]) if self.pos < len(self.d) else b""

    def read(self, n):
        x = self.rest()
        if n is not None and n >= 0:
            x = x[:n]
        self.pos += len(x)
        return x

    def line(self, n):
        x = self.rest()
        i = x.find(b"\n")
        if i >= 0:
            x = x[:i + 1]
        if n is not None and n >= 0:
            x = x[:n]
        self.pos += len(x)
        return x

    def write(self, x):
        if not x:
            return
        if self.a:
            self.pos = len(self.d)
        if self.pos > len(self.d):
            self.d += bytes(self.pos - len(self.d))
        self.d[self.pos:self.pos + len(x)] = x
        self.pos += len(x)

    def truncate(self, n):
        if n < len(self.d):
            del self.d[n:]
        else:
            self.d += bytes(n - len(self.d))


def blob(rng, n):
    k = rng.random()
    if k < 0.4:
        return bytes(rng.choice(b"ab\ncd\r\n\0xyz") for _ in range(n))
    if k < 0.6:
        return bytes([rng.randrange(256)]) * n
    return rng.randbytes(n)


def wrap(rng, x):
    """The same bytes as one of the buffer types accepted."""
    k = rng.randrange(8)
    if k == 0:
        return "bytearray", bytearray(x)
    if k == 1:
        return "memoryview", memoryview(b"??" + x + b"!")[2:2 + len(x)]
    if k == 2 and len(x) % 2 == 0:
        return "arrayH", array.array("H", x)
    if k == 3 and len(x) % 4 == 0:
        return "arrayI", array.array("I", x)
    if k == 4 and x:
        return "ctypes", (ctypes.c_ubyte * len(x)).from_buffer_copy(x)
    if k == 5 and x and len(x) % 4 == 0:
        return "view2", memoryview(x).cast("B").cast("I")
    return "bytes", x


class Bad(Exception):
    def __init__(self, mech, msg):
        self.mech, self.msg = mech, msg


REFUSED = (OSError, ValueError, TypeError, OverflowError)


class Run:
    def __init__(self, ctx, rs):
        self.ctx, self.rs, self.rng = ctx, rs, ctx.rng
        self.log = []

    def open(self):
        rng, ctx = self.rng, self.ctx
        p = self.path = ctx.fresh("b")
        mode = self.mode = rng.choice(MODES)
        std = mode.islower()
        r = ("r" in mode or "+" in mode) if std else "R" in mode
        w = (mode[0] in "wax" or "+" in mode) if std else ("W" in mode or "A" in mode)
        a = ("a" if std else "A") in mode
        e = "w" in mode if std else "E" in mode
        creating = "x" in mode or "C" in mode
        data = blob(rng, rng.choice([0, 1, 5, 16, 17, 40, 100, 1000, 9000, 30000]))
        if not creating:
            with open(p, "wb") as f:
                f.write(data)
        if creating or e:
            data = b""
        buf = self.buf = rng.choice(BUFS)
        kw = {}
        if buf is not None or rng.random() < 0.5:
            kw["buffering"] = buf
        kw["thread_safe"] = rng.random() < 0.5
        kw["locking"] = rng.random() < 0.5
        if kw["locking"]:
            kw["timeout"] = rng.choice([0, None, 5])
        pos = len(data) if a else 0
        self.fd = None
        k = rng.random()
        if k < 0.15 and not e and not creating:
            # wrapping, with the position where the descriptor is
            fl = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(r, w)] | (os.O_APPEND if a else 0)
            fd = os.open(p, fl)
            if not a:
                pos = rng.choice([0, len(data) // 2, len(data), len(data) + 3])
                os.lseek(fd, pos, 0)
            else:
                os.lseek(fd, len(data) // 3, 0)
            if rng.random() < 0.5:
                kw["closefd"] = False
                self.fd = fd
            st = self.rs.rsopen(None, mode, **{rng.choice(["fileno", "handle"]): fd}, **kw)
        elif k < 0.25:
            st = self.rs.rsopen(p, mode, opener=lambda n, fl: os.open(n, fl, 0o666), **kw)
        elif k < 0.3:
            st = self.rs.rsopen(p.encode(), mode, **kw)
        else:
            st = self.rs.rsopen(p, mode, **kw)
        self.st, self.m = st, Model(data, pos, r, w, a)
        self.raw = buf == 0
        self.locked = kw["locking"]
        self.dirty = False  # unflushed data may exist
        self.eye = os.open(p, os.O_RDONLY) if False else None
        self.log.append("open %s buffering=%r %r start=%d size=%d" % (mode, buf, {x: y for x, y in kw.items() if x != "buffering"}, pos, len(data)))
        if creating and kw["locking"] is None:
            pass

    def eq(self, what, got, want):
        if got != want or type(got) is not type(want):
            def short(x):
                return x if len(repr(x)) < 120 else repr(x)[:60] + "...%d" % len(x)
            raise Bad("result:" + what.split("(")[0], "%s gives %s instead of %s" % (what, short(got), short(want)))

    def content(self, why):
        """What other descriptors see (read by stat and by a stream-independent read, never closing a descriptor while locks are held)."""
        m = self.m
        size = os.stat(self.path).st_size
        if size != len(m.d):
            raise Bad("file-size", "after %s the file has %d bytes instead of %d" % (why, size, len(m.d)))
        self.ctx.count("independent_reads")
        if not self.locked:
            with open(self.path, "rb") as f:
                got = f.read()
            if got != m.d:
                i = next(i for i in range(len(got)) if got[i] != m.d[i])
                raise Bad("file-content", "after %s the file differs from the model at offset %d: %r instead of %r" % (why, i, got[i:i + 20], bytes(m.d[i:i + 20])))

    def refusal(self, what, fn):
        try:
            x = fn()
        except REFUSED as e:
            self.ctx.count("refusals")
            return type(e).__name__
        raise Bad("accepted:" + what.split("(")[0], "%s is accepted and gives %r" % (what, x))

    def n(self):
        m, rng = self.m, self.rng
        left = max(0, len(m.d) - m.pos)
        return rng.choice(SIZES + [left, left + 1, max(0, left - 1), left // 2])

    def step(self):
        rng, st, m = self.rng, self.st, self.m
        op = rng.choice(["read", "read", "readinto", "readline", "iter", "readlines", "peek", "read1", "readinto1", "write", "write", "write", "writelines",
                         "seek", "seek", "seek", "tell", "truncate", "truncate", "flush", "size", "sync", "bad", "lock", "misc"])
        cls = ""
        before = len(m.d), m.pos
        if op in ("read", "readinto", "readline", "iter", "readlines") and not m.r:
            cls = "refused"
            fn = {"read": lambda: st.read(rng.choice([-1, 0, 5, None])) , "readinto": lambda: st.readinto(bytearray(3)), "readline": lambda: st.readline(),
                  "iter": lambda: next(iter(st)), "readlines": lambda: st.readlines()}[op]
            self.log.append("%s()" % op)
            if op == "readline" and False:
                return
            self.refusal(op + "() on a write-only stream", fn)
            if not m.a:
                self.dirty = self.dirty
        elif op == "read":
            n = rng.choice([None, -1, self.n(), self.n(), self.n()])
            self.log.append("read(%r)" % n)
            args = () if n is None and rng.random() < 0.5 else (n,)
            cls = "all" if n in (None, -1) else "n"
            if n == -1 and rng.random() < 0.3 and self.raw:
                got = st.readall()
            else:
                got = st.read(*args)
            self.eq("read(%r)" % n, got, m.read(n))
            if cls == "all" or n:
                self.dirty = False
        elif op == "readinto":
            n = self.n()
            kind = rng.choice(["bytearray", "memoryview", "array", "ctypes", "mmap", "arrayH"])
            self.log.append("readinto(%s[%d])" % (kind, n))
            if kind == "mmap" and n:
                b = mmap.mmap(-1, n)
            elif kind == "array":
                b = array.array("b", bytes(n))
            elif kind == "arrayH":
                n -= n % 2
                b = array.array("H", bytes(n))
            elif kind == "ctypes":
                b = (ctypes.c_ubyte * n)()
            elif kind == "memoryview":
                outer = bytearray(b"\xee" * (n + 6))
                b = memoryview(outer)[3:3 + n]
            else:
                kind, b = "bytearray", bytearray(n)
            cls = kind
            old = bytes(b)
            got = st.readinto(b)
            want = m.read(n)
            self.eq("readinto(%s of %d)" % (kind, n), got, len(want))
            self.eq("data of readinto(%s of %d)" % (kind, n), bytes(b), want + old[len(want):])
            if kind == "memoryview" and (outer[:3] != b"\xee" * 3 or outer[3 + n:] != b"\xee" * 3):
                raise Bad("outside-buffer", "readinto() writes outside the buffer given")
            if n:
                self.dirty = False
        elif op == "readline":
            n = rng.choice([None, -1, self.n(), self.n()])
            self.log.append("readline(%r)" % n)
            cls = "all" if n in (None, -1) else "n"
            self.eq("readline(%r)" % n, st.readline(*(() if n is None and rng.random() < 0.5 else (n,))), m.line(n))
            if n != 0:
                self.dirty = False
        elif op == "iter":
            k = rng.choice([1, 2, 5, 10 ** 9])
            self.log.append("iterate %d" % k)
            cls = "all" if k > 5 else "some"
            got, want = [], []
            if k == 1:
                x = next(st, None)
                got = [x] if x is not None else []
            else:
                for x in st:
                    got.append(x)
                    if len(got) >= k:
                        break
            while len(want) < k:
                x = m.line(None)
                if not x:
                    break
                want.append(x)
            self.eq("iteration", got, want)
            self.dirty = False
        elif op == "readlines":
            h = rng.choice([None, 0, -1, 1, 10, 100])
            self.log.append("readlines(%r)" % h)
            got, want, tot = st.readlines(*(() if h is None else (h,))), [], 0
            while True:
                x = m.line(None)
                if not x:
                    break
                want.append(x)
                tot += len(x)
                if h and h > 0 and tot >= h:
                    break
            self.eq("readlines(%r)" % h, got, want)
            self.dirty = False
        elif op in ("peek", "read1", "readinto1"):
            if self.raw or not m.r:
                return
            n = rng.choice([-1, 0, self.n(), self.n()])
            if op == "peek":
                self.log.append("peek(%d)" % n)
                got = st.peek(n)
                rest = m.rest()
                if not rest.startswith(got) or (rest and not got):
                    raise Bad("result:peek", "peek(%d) gives %r, the data ahead is %r" % (n, got[:50], rest[:50]))
            elif op == "read1":
                self.log.append("read1(%d)" % n)
                got = st.read1(n)
                rest = m.rest()
                if not rest.startswith(got) or (rest and n and not got) or (n >= 0 and len(got) > n):
                    raise Bad("result:read1", "read1(%d) gives %r, the data ahead is %r" % (n, got[:50], rest[:50]))
                m.pos += len(got)
            else:
                n = max(n, 0)
                self.log.append("readinto1(%d)" % n)
                b = bytearray(n)
                k = st.readinto1(b)
                rest = m.rest()
                if k > n or (rest and n and not k) or bytes(b[:k]) != rest[:k] or len(rest) < k:
                    raise Bad("result:readinto1", "readinto1(%d) gives %d %r, the data ahead is %r" % (n, k, b[:50], rest[:50]))
                m.pos += k
            if n:
                self.dirty = False
        elif op in ("write", "writelines") and not m.w:
            cls = "refused"
            self.log.append(op + "()")
            self.refusal(op + " on a read-only stream", lambda: st.write(b"xyz") if op == "write" else st.writelines([b"x"]))
        elif op == "write":
            x = blob(rng, self.n())
            kind, obj = wrap(rng, x)
            cls = kind
            self.log.append("write(%s[%d])" % (kind, len(x)))
            got = st.write(obj)
            self.eq("write(%s of %d)" % (kind, len(x)), got, len(x))
            if kind in ("bytearray", "arrayH") and x:
                obj[0] = 0x55  # the caller may reuse its buffer at once
            m.write(x)
            if x and not self.raw:
                self.dirty = True
        elif op == "writelines":
            xs = [blob(rng, rng.choice([0, 1, 5, 20, 100, 5000])) for _ in range(rng.choice([0, 1, 3, 6]))]
            self.log.append("writelines(%r)" % [len(x) for x in xs])
            k = rng.randrange(3)
            self.eq("writelines", st.writelines(xs if k == 0 else iter(xs) if k == 1 else [bytearray(x) for x in xs]), None)
            for x in xs:
                m.write(x)
            if any(xs) and not self.raw:
                self.dirty = True
        elif op == "seek":
            k = rng.randrange(8)
            size = len(m.d)
            if k < 3:
                t = rng.choice([0, 1, m.pos, size, size + 1, size + 100, rng.randrange(size + 1), rng.randrange(size + 1), rng.randrange(size + 1), max(0, m.pos - 3), m.pos + 4])
                args, want = rng.choice([(t,), (t, 0), (t, os.SEEK_SET)]), t
                cls = "set"
            elif k < 5:
                if m.a and self.dirty:
                    st.flush()
                d = rng.choice([0, 1, -1, 5, -5, 17, -17, 300, -300])
                if m.pos + d < 0:
                    d = -m.pos
                args, want = (d, 1), m.pos + d
                cls = "cur"
            elif k < 7:
                d = rng.choice([0, 0, -1, -5, -20, 7])
                if size + d < 0:
                    d = -size
                args, want = (d, 2), size + d
                cls = "end"
            else:
                cls = "refused"
                if m.a and self.dirty:
                    st.flush()
                args = rng.choice([(-1,), (-1 - m.pos, 1), (-1 - size, 2), (0, 99), (-1, 0), ("a",), (1.5,), (None,), (2 ** 70,), (), (0, "x")])
                self.log.append("seek%r" % (args,))
                self.refusal("seek%r" % (args,), lambda: st.seek(*args))
            if cls != "refused":
                self.log.append("seek%r" % (args,))
                self.eq("seek%r" % (args,), st.seek(*args), want)
                m.pos = want
                self.dirty = False
        elif op == "tell":
            if m.a and self.dirty:
                return
            self.log.append("tell()")
            self.eq("tell()", st.tell(), m.pos)
        elif op == "truncate":
            size = len(m.d)
            if not m.w:
                cls = "refused"
                self.log.append("truncate()")
                self.refusal("truncate on a read-only stream", lambda: st.truncate(*rng.choice([(), (0,), (size,), (size + 3,), (None,)])))
            else:
                n = rng.choice([None, None, 0, 1, size, size + 1, size + 50, size + 5000, m.pos, rng.randrange(size + 1), rng.randrange(size + 1), -1])
                if n == -1:
                    cls = "refused"
                    self.log.append("truncate(-1)")
                    self.refusal("truncate(-1)", lambda: st.truncate(rng.choice([-1, -100, "x"])))
                    self.dirty = True if self.dirty else False
                else:
                    kw = {"zero_fill": rng.random() < 0.5} if rng.random() < 0.3 and n is not None else {}
                    self.log.append("truncate(%r, %r)" % (n, kw))
                    cls = "none" if n is None else "shrink" if n < size else "grow" if n > size else "same"
                    want = m.pos if n is None else n
                    got = st.truncate(*(() if n is None and rng.random() < 0.5 else (n,)), **kw)
                    self.eq("truncate(%r)" % n, got, want)
                    m.truncate(want)
                    self.dirty = False
                    self.content("truncate(%r)" % n)
        elif op == "flush":
            self.log.append("flush()")
            self.eq("flush()", st.flush(), None)
            self.dirty = False
            self.content("flush()")
        elif op == "size":
            self.log.append("size()")
            self.eq("size()", st.size(), len(m.d))
            self.dirty = False
        elif op == "sync":
            kw = rng.choice([{}, {"metadata": False}, {"full_flush": False}, {"metadata": False, "full_flush": False}])
            self.log.append("sync(%r)" % kw)
            st.sync(**kw)
            self.dirty = False
            self.content("sync()")
        elif op == "lock":
            if self.locked:
                self.log.append("unlock_file()")
                st.unlock_file()
                self.locked = False
                self.dirty = False
                self.content("unlock_file()")
            else:
                self.log.append("with lock_file()")
                if rng.random() < 0.5:
                    with st.lock_file(timeout=0, offset=rng.choice([0, 5]), length=rng.choice([None, 7]), whence=rng.choice([0, 2])):
                        self.eq("tell() in a lock", st.tell(), m.pos)
                else:
                    st.lock_file(timeout=0)
                    self.locked = True
                self.dirty = False
        elif op == "misc":
            self.log.append("misc")
            for what, want in (("readable", m.r), ("writable", m.w), ("seekable", True), ("isatty", False)):
                self.eq(what + "()", getattr(st, what)(), want)
            self.eq("closed", st.closed, False)
            os.fstat(st.fileno())
            st.times()
            st.unique_id()
            repr(st)
        else:
            k = rng.randrange(6)
            if k in (2, 4) and m.r and not m.rest():
                k = 0  # nothing to store
            self.log.append("bad %d" % k)
            cls = "refused%d" % k
            if k == 0:
                self.refusal("write(str)", lambda: st.write("text"))
            elif k == 1:
                self.refusal("write(5)", lambda: st.write(5))
            elif k == 2:
                self.refusal("readinto(bytes)", lambda: st.readinto(b"immutable"))
            elif k == 3:
                self.refusal("writelines(str)", lambda: st.writelines("abc"))
            elif k == 4:
                self.refusal("readinto(str)", lambda: st.readinto("str"))
            else:
                self.refusal("read(2, 3)", lambda: st.read(2, 3))
            if not m.r and k in (2, 4, 5):
                pass
        self.ctx.count("ops")
        self.ctx.case((self.raw, self.bufclass(), self.mode, op, cls, self.last), bool(cls == "refused" or before != (len(m.d), m.pos)),
                      sample={"operations": self.log[-6:]})
        self.last = op
        # the position is checked now and then only, as asking for it could hide defects
        if rng.random() < 0.15 and not (m.a and self.dirty):
            self.eq("tell() after %s" % self.log[-1], st.tell(), m.pos)

    def bufclass(self):
        b = self.buf
        return "raw" if b == 0 else "default" if b in (None, -1, 1) else "tiny" if b < 20 else "small" if b < 2000 else "big"

    def one(self):
        rng = self.rng
        self.log, self.last = [], "open"
        self.st = None
        try:
            self.open()
            for _ in range(rng.choice([3, 8, 20, 60])):
                self.step()
            self.log.append("close()")
            self.st.close()
            self.locked = False
            self.content("close()")
            if self.fd is not None:
                os.close(self.fd)
        except Bad as b:
            self.ctx.violation(b.mech, "%s [%s, buffering %r]" % (b.msg, self.mode, self.buf), history=self.log[-40:])
        except vf.StopShard:
            raise
        except Exception as e:
            if not vf.from_repo(e.__traceback__) and "_pyio" not in traceback.format_exc():
                raise
            self.ctx.violation("raised:" + type(e).__name__, "%r raised by %s" % (e, self.log[-1] if self.log else "open"), history=self.log[-40:], traceback=traceback.format_exc()[-1500:])
        finally:
            try:
                if self.st is not None:
                    self.st.close()
            except Exception:
                pass
            try:
                os.unlink(self.path)
            except OSError:
                pass


def far(ctx, rs):
    """Offsets beyond 2^31 and 2^32, holes, large transfers."""
    rng = ctx.rng
    p = ctx.fresh("far")
    st = rs.rsopen(p, rng.choice(["w+b", "RWEB", "x+b"]), buffering=rng.choice([0, 16, -1]))
    want = {}
    try:
        for _ in range(4):
            base = rng.choice([0, 2 ** 31 - 2, 2 ** 31, 2 ** 32 - 3, 2 ** 32, 2 ** 33 + 1, 2 ** 40]) + rng.randrange(3) * 100
            x = blob(rng, rng.choice([1, 6, 50, 9000]))
            if st.seek(base) != base or st.write(x) != len(x):
                raise Bad("far", "seek or write at %d gives a wrong result" % base)
            if st.tell() != base + len(x):
                raise Bad("far", "position %d instead of %d" % (st.tell(), base + len(x)))
            for i, c in enumerate(x):
                want[base + i] = c
            size = max(want) + 1
            if st.size() != size or st.seek(0, 2) != size:
                raise Bad("far", "size %d instead of %d" % (st.size(), size))
            k = rng.choice(sorted(want)[::37] or [base])
            st.seek(k - 2 if k > 2 else 0)
            got = st.read(9)
            at = k - 2 if k > 2 else 0
            exp = bytes(want.get(at + i, 0) for i in range(9) if at + i < size)
            if got != exp:
                raise Bad("far", "read at %d gives %r instead of %r" % (at, got, exp))
            if rng.random() < 0.3:
                cut = rng.choice([base + 1, 2 ** 32 + 7, 2 ** 31 + 1])
                if st.truncate(cut) != cut or st.size() != cut:
                    raise Bad("far", "truncate(%d) gives a wrong size" % cut)
                for i in [i for i in want if i >= cut]:
                    del want[i]
                want.setdefault(cut - 1, 0)
            ctx.count("far_offsets")
            ctx.case(("far", base, len(x)))
        st.flush()
        if os.stat(p).st_size != max(want) + 1:
            raise Bad("far", "the file has %d bytes" % os.stat(p).st_size)
        st.close()
        fd = os.open(p, os.O_RDONLY)
        try:
            for at in sorted(want)[::50]:
                if os.pread(fd, 1, at) != bytes([want[at]]):
                    raise Bad("far", "the file is wrong at %d" % at)
        finally:
            os.close(fd)
    except Bad as b:
        ctx.violation(b.mech, b.msg)
    finally:
        st.close()
        os.unlink(p)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    r = Run(ctx, rs)
    n = 0
    while ctx.more(n, 120, 10 ** 7):
        if n % 50 == 0:
            ctx.crumb("case %d" % n)
        r.one()
        if n % 60 == 7:
            far(ctx, rs)
        n += 1
