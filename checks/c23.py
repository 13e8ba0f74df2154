"""C23: the Windows backend keeps the same contracts on Win32 (simulated)."""
import errno, gc, os as real_os, random, threading, time, traceback, types
from lib import vf, win32sim as sim
from checks import c10

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring of the real Windows streams on a simulated Win32 kernel (both native bindings): contents and positions against the byte-array model of C10, "
             "the kernel's handle, descriptor and lock tables against what the streams hold after every call, errors injected at any system call")
NOTE = ("No Windows here: the kernel, the C runtime and pywin32 are stand-ins written from their documentation ([MS-FSA] for locks); they fill gaps with zeros as NTFS does. "
        "Arguments of the ctypes binding do cross real C prototypes. A descriptor the C runtime attached to a handle which must stay open cannot be released, and is not counted.")
RULE = ("one operation of a history (contents, locks, opening, faults or pipes); distinct by (binding, kind of history, operation, argument class, outcome); non-trivial when the kernel was called.")
BUDGET = {"quick": 9, "thorough": 200}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"ops": 8000, "lock_calls": 3000, "locks_refused": 300, "mandatory_refusals": 100, "opens": 1000, "faults": 600, "waits": 15, "pipe_ops": 500, "appends": 20, "no_identity": 50}
ASSUMPTIONS = ["the simulated kernel behaves like Win32 on NTFS"]

E = {2: 2, 3: 2, 5: 13, 6: 9, 8: 12, 32: 13, 33: 13, 80: 17, 112: 28, 158: 13, 167: 13, 87: 22, 131: 22, 307: 22}


def shards(tier, seed):
    return [("%s%d" % (b, i), {"binding": b, "i": i}) for b in ("ctypes", "pywin32") for i in range(4)]


class Bad(Exception):
    def __init__(self, mech, msg):
        Exception.__init__(self, msg)
        self.mech, self.msg = mech, msg


def simos():
    m = types.ModuleType("os")
    m.__dict__.update({k: v for k, v in vars(real_os).items() if k != "__name__"})
    m.fstat = lambda fd: sim.K.fstat(fd)
    m.close = lambda fd: None
    m.unlink = lambda p: sim.K.files.pop(p, None)
    m.stat = lambda p: types.SimpleNamespace(st_size=len(sim.K.files[p].data))
    m.open = None
    return m


SPURIOUS = (6, 158, 307, 87)


def settled(K, where, mine=(), fds=()):
    """Nothing but what the harness itself opened remains, and nothing was released twice."""
    if K.crash:
        raise sim.SimError(K.crash)
    left = [h for h in K.handles if h not in mine]
    if left:
        gc.collect()
        left = [h for h in K.handles if h not in mine]
    if left:
        raise Bad("handle-leak", "%s: handles %r stay open" % (where, left))
    locks = [(h, a, b) for (n, h, a, b, e) in K.locks if h not in mine]
    if locks:
        raise Bad("lock-leak", "%s: locks %r stay" % (where, locks))
    crt = {fd: x for fd, x in K.crt.items() if fd not in fds and x[0] not in mine}
    if crt:
        raise Bad("descriptor-leak", "%s: descriptors %r of the C runtime stay open" % (where, crt))
    # Win32 releases the locks of a closed handle some time later
    if K.lingering and not any(c[0] == "UnlockFileEx" and c[2] for c in K.calls):
        raise Bad("lock-lingers", "%s: the locks %r were not released before their handle was closed" % (where, K.lingering))
    for name, args, code in K.calls:
        if code in SPURIOUS:
            raise Bad("spurious-call", "%s: %s%r fails with the error %d" % (where, name, args, code))


def fails_of(K):
    """Errors raised inside the kernel are only visible through the calls: record them all."""
    return [c for c in K.calls if c[2]]


# ---- contents -----------------------------------------------------------------------------------------------------------

class Contents(c10.Run):
    def __init__(self, ctx, rs, binding):
        c10.Run.__init__(self, ctx, rs)
        self.binding = binding
        self.names = 0

    def open(self):
        rng, K = self.rng, sim.K
        self.names += 1
        p = self.path = rng.choice(["file%d", "dossier été%d", "ファイル%d"]) % self.names
        mode = self.mode = rng.choice(c10.MODES)
        std = mode.islower()
        r = ("r" in mode or "+" in mode) if std else "R" in mode
        w = (mode[0] in "wax" or "+" in mode) if std else ("W" in mode or "A" in mode)
        a = ("a" if std else "A") in mode
        e = "w" in mode if std else "E" in mode
        creating = "x" in mode or "C" in mode
        data = c10.blob(rng, rng.choice([0, 1, 5, 16, 17, 40, 100, 1000, 9000, 30000]))
        if not creating:
            node = K.add(p, data)
        if creating or e:
            data = b""
        buf = self.buf = rng.choice(c10.BUFS)
        kw = {} if buf is None else {"buffering": buf}
        kw["thread_safe"] = rng.random() < 0.5
        kw["locking"] = rng.random() < 0.5
        pos = len(data) if a else 0
        self.fd, self.mine, self.fds = None, (), ()
        k = rng.random()
        if k < 0.3 and not e and not creating:
            h = K.new_handle(node, (sim.GENERIC_READ if r else 0) | (sim.GENERIC_WRITE if w else 0))
            if not a:
                pos = rng.choice([0, len(data) // 2, len(data), len(data) + 3])
            K.handles[h].pos = pos
            kind = rng.choice(["fileno", "handle"])
            if rng.random() < 0.5:
                kw["closefd"] = False
                self.mine = (h,)
            kw[kind] = h
            if kind == "fileno":
                kw[kind] = fd = K.new_fd(h)
                if self.mine:
                    self.fds = (fd,)
            st = self.rs.rsopen(None, mode, **kw)
        else:
            st = self.rs.rsopen(p if rng.random() < 0.9 else p.encode(), mode, **kw)
        self.st, self.m = st, c10.Model(data, pos, r, w, a)
        self.raw, self.locked, self.dirty = buf == 0, kw["locking"], False
        self.log.append("open %s %r start=%d size=%d" % (mode, kw, pos, len(data)))

    def content(self, why):
        d = sim.K.files[self.path].data
        self.ctx.count("independent_reads")
        if d != self.m.d:
            i = next((i for i in range(min(len(d), len(self.m.d))) if d[i] != self.m.d[i]), min(len(d), len(self.m.d)))
            raise c10.Bad("file-content", "after %s the file (%d bytes) differs from the model (%d bytes) at offset %d" % (why, len(d), len(self.m.d), i))

    def one(self):
        K = sim.reset()
        self.mine = self.fds = ()
        if self.rng.random() < 0.2:
            K.max_write = None
        if self.rng.random() < 0.15:
            K.first_fd = 0
        n = len(self.ctx.violations)
        c10.Run.one(self)
        self.st = None
        if len(self.ctx.violations) == n:
            try:
                settled(K, "after " + "; ".join(self.log[-8:]), self.mine, self.fds)
                for fd in self.fds:
                    K.crt_handle(fd)
                for h in self.mine:
                    if h not in K.handles:
                        raise Bad("foreign-close", "the handle wrapped with closefd=False was closed by %s" % "; ".join(self.log))
            except Bad as b:
                self.ctx.violation(b.mech, b.msg, history=self.log[-40:])


def text(ctx, rs, rng):
    """A text stream: what is written comes back."""
    K = sim.reset()
    x = "".join(rng.choice("abcdé€\n") for _ in range(rng.choice([0, 5, 100, 9000])))
    y = "".join(rng.choice("xyz\n") for _ in range(rng.choice([0, 5, 100])))
    with rs.rsopen("t", rng.choice(["w", "WE", "w+", "RWE"]), encoding="utf-8", newline="") as f:
        f.write(x)
    if rng.random() < 0.5:
        f = rs.rsopen("t", rng.choice(["a", "A", "a+"]), encoding="utf-8", newline="")
        f.write(y)
        f.close()
        x += y
    if K.files["t"].data != x.encode():
        raise Bad("text", "%d characters written give %d bytes instead of %d" % (len(x), len(K.files["t"].data), len(x.encode())))
    with rs.rsopen("t", "r", encoding="utf-8", newline="") as f:
        lines = list(f)
        f.seek(0)
        if "".join(lines) != x or f.read() != x:
            raise Bad("text", "text comes back different")
    f = None
    settled(K, "text stream")
    big = rng.randbytes(rng.choice([65535, 65536, 65537, 200000]))
    f = rs.rsopen("big", "w+b", buffering=0)
    if f.write(big) != len(big) or f.seek(0) or f.read(len(big) + 3) != big:
        raise Bad("big", "%d bytes written at once come back different" % len(big))
    f.close()
    f = None
    settled(K, "big transfers")
    ctx.count("ops", 4)


# ---- locks --------------------------------------------------------------------------------------------------------------

BIG = [0, 1, 2, 5, 10, 100, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 33, 2 ** 40 + 3, 2 ** 62]
INF = 1 << 64


def clash(a, b, s, e):
    return a < e and s < b


class Locks:
    """Histories of locks of a few streams and of a foreign handle on one file."""

    def __init__(self, ctx, rs, rng, binding):
        self.ctx, self.rs, self.rng, self.binding = ctx, rs, rng, binding
        self.K = sim.reset()
        self.node = self.K.add("f", bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 50, 300]))))
        self.streams, self.log = [], []
        self.foreign = self.K.new_handle(self.node)
        self.fds = ()

    def held(self):
        """Expected locks: (owner, start, end, exclusive); -1 stands for infinity."""
        return sorted((st["h"], a, b, x) for st in self.streams for (a, b, x) in st["locks"]) + sorted((self.foreign, a, b, e) for (a, b, e) in self.flocks)

    flocks = ()

    def check(self, what):
        got = [(h, a, b, x) for (n, h, a, b, x) in self.K.locks]
        want = list(self.held())
        for (h, a, b, x) in got:
            for w in want:
                # "to infinity": at least up to the last offset of Win32 files
                if w[0] == h and w[1] == a and w[3] == x and (w[2] == b or w[2] == INF and b >= (1 << 63) - 1):
                    want.remove(w)
                    break
            else:
                raise Bad("kernel-locks", "after %s the kernel has an unexpected lock %r of handle %d (expected %r)" % (what, (a, b, x), h, self.held()))
        if want:
            raise Bad("kernel-locks", "after %s the kernel misses the locks %r (it has %r)" % (what, want, got))

    def open(self):
        rng = self.rng
        mode = rng.choice(["rb", "r+b", "RWNB", "WB", "a+b", "RB"])
        kw = {"buffering": rng.choice([0, 0, -1]), "thread_safe": rng.random() < 0.5}
        before = set(self.K.handles)
        locking = rng.random() < 0.3
        r, w = "r" in mode or "R" in mode or "+" in mode, "+" in mode or "W" in mode
        s = {"locks": [], "r": r, "w": w}
        ok = not any(x or w for (_, a, b, x) in self.held())
        if locking:
            kw["timeout"] = 0
        n = len(self.K.calls)
        try:
            f = self.rs.rsopen("f", mode, locking=locking, **kw)
        except self.rs.LockingException:
            if ok or not locking:
                raise Bad("refused", "opening in mode %s with locking=%r is refused though the file is free: %r" % (mode, locking, self.held()))
            self.ctx.count("locks_refused")
            gc.collect()
            if set(self.K.handles) != before:
                raise Bad("handle-leak", "a refused open leaves handles open")
            self.check("a refused open")
            return
        if locking and not ok:
            raise Bad("granted", "opening in mode %s locks the file in spite of %r" % (mode, self.held()))
        s["f"], s["raw"] = f, kw["buffering"] == 0
        s["h"] = (set(self.K.handles) - before).pop()
        if f.handle() != s["h"]:
            raise Bad("handle", "handle() is %r instead of %r" % (f.handle(), s["h"]))
        if locking:
            s["locks"].append((0, INF, w))
        self.streams.append(s)
        self.log.append("open %s %r locking=%r as %d" % (mode, kw, locking, s["h"]))

    def arguments(self, s):
        rng = self.rng
        kw = {}
        off = rng.choice(BIG[:7] * 3 + BIG)
        if rng.random() < 0.03:
            off = rng.choice([2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 2 ** 70])
        length = rng.choice([None, 0, 1, 2, 5, 10, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40])
        whence = rng.choice([0, 0, 0, 1, 2])
        base = 0
        if whence == 1:
            base = s["f"].tell()
        elif whence == 2:
            base = len(self.node.data)
        if whence or rng.random() < 0.8:
            kw["offset"] = off
            if whence or rng.random() < 0.5:
                kw["whence"] = whence
        else:
            off = 0
        if length is not None or rng.random() < 0.5:
            kw["length"] = length
        a = base + off
        return kw, a, a + length if length else INF

    def lock(self, s):
        rng, f = self.rng, s["f"]
        kw, a, b = self.arguments(s)
        shared = rng.choice([None, True, False])
        if shared is not None:
            kw["shared"] = shared
        excl = s["w"] if shared is None else not shared
        kw["timeout"] = rng.choice([0, 0, 0, 0.003])
        what = "lock_file(%r) on %d" % (kw, s["h"])
        self.log.append(what)
        want = "granted"
        if excl and not s["w"] or not excl and not s["r"]:
            want = "mode"
        elif any(clash(a, b, x, y) for (x, y, e) in s["locks"]):
            want = "twice"
        elif any(clash(a, b, x, y) and (e or excl) for (h, x, y, e) in self.held() if h != s["h"]):
            want = "refused"
        if a >= (1 << 64) - 1 or b > INF:
            self.log.append("%s (too big)" % what)
            try:
                f.lock_file(**kw)
            except (OSError, OverflowError, ValueError, RuntimeError):
                self.check(what)
                return
            raise Bad("lock-result", "%s is accepted though it lies outside of files" % what)
        n = len(self.K.calls)
        try:
            cm = f.lock_file(**kw)
            got = "granted"
        except self.rs.LockingException as e:
            got = "refused"
            if want == "refused" and (e.errno != 13 or e.filename != "f"):
                raise Bad("error", "%s fails with errno %r and filename %r" % (what, e.errno, e.filename))
        except OSError:
            got = "mode"
        except RuntimeError:
            got = "twice"
        if got != want:
            raise Bad("lock-result", "%s is %s instead of %s, with %r held" % (what, got, want, self.held()))
        if want in ("granted", "refused"):
            calls = [c for c in self.K.calls[n:] if c[0] == "LockFileEx"]
            ln = b - a
            for c in calls:
                h, flags, start, length = c[1]
                if (h, flags, start) != (s["h"], 2 * excl | 1, a) or (length != ln if b != INF else length < (1 << 63) - 1 - a):
                    raise Bad("lock-arguments", "%s calls LockFileEx with %r" % (what, c[1]))
            if not calls or kw["timeout"] == 0 and len(calls) != 1 or want == "granted" and len(calls) != 1:
                raise Bad("lock-attempts", "%s calls LockFileEx %d times" % (what, len(calls)))
        if got == "granted":
            s["locks"].append((a, b, excl))
            if rng.random() < 0.2:
                self.check(what)
                cm.__enter__()
                if rng.random() < 0.5 and s["raw"]:
                    f.seek(rng.choice([0, 3]))
                cm.__exit__(None, None, None)
                s["locks"].remove((a, b, excl))
                self.log.append("leaving the block")
        else:
            self.ctx.count("locks_refused")
        self.case("lock", got, b == INF, a > 2 ** 31, kw.get("whence"))
        self.check(what)

    def unlock(self, s):
        rng, f = self.rng, s["f"]
        if s["locks"] and rng.random() < 0.8:
            a, b, x = rng.choice(s["locks"])
            if rng.random() < 0.2:
                a = max(0, a + rng.choice([-1, 1]))
            off, whence = a, 0
            if rng.random() < 0.3 and a >= f.tell():
                off, whence = a - f.tell(), 1
            kw = {"length": None if b == INF else b - a, "offset": off, "whence": whence}
            if kw["length"] is not None and kw["length"] < 1:
                return
        else:
            kw, a, b = self.arguments(s)
        what = "unlock_file(%r) on %d" % (kw, s["h"])
        self.log.append(what)
        if a >= (1 << 64) - 1 or b > INF:
            return
        known = [l for l in s["locks"] if l[:2] == (a, b)]
        try:
            f.unlock_file(**kw)
            if not known:
                raise Bad("unlock-accepted", "%s is accepted, while the stream holds %r" % (what, s["locks"]))
            s["locks"].remove(known[0])
        except RuntimeError:
            if known:
                raise Bad("unlock-refused", "%s is refused, while the stream holds %r" % (what, s["locks"]))
        self.case("unlock", bool(known), b == INF, a > 2 ** 31, kw.get("whence"))
        self.check(what)

    def io(self, s):
        """Reading and writing under mandatory locks."""
        rng, f = self.rng, s["f"]
        if not s["raw"]:
            return
        size = len(self.node.data)
        pos, n = rng.choice([0, 1, 5, size, size // 2]), rng.choice([1, 2, 10, 50])
        f.seek(pos)
        write = s["w"] and rng.random() < 0.5
        if not write and not s["r"]:
            return
        if write and f.mode.startswith("a"):
            pos = size
        bad = any(clash(pos, pos + n, a, b) and (e and h != s["h"] or write and not e) for (h, a, b, e) in self.held())
        what = "%s of %d bytes at %d by %d" % ("write" if write else "read", n, pos, s["h"])
        self.log.append(what)
        if write and getattr(f, "mode", "") and "a" in f.mode:
            pos = size
        before = bytes(self.node.data)
        try:
            r = f.write(b"w" * n) if write else f.read(n)
            if bad:
                raise Bad("mandatory", "%s succeeds in spite of the locks %r" % (what, self.held()))
            if r != (n if write else before[pos:pos + n]):
                raise Bad("io-result", "%s gives %r" % (what, r))
            if write:
                gap = bytes(max(0, pos - len(before)))
                if self.node.data != before[:pos] + gap + b"w" * n + before[pos + n:]:
                    raise Bad("io-result", "%s leaves wrong data" % what)
        except OSError as e:
            if not bad:
                raise Bad("mandatory", "%s raises %r though nothing locks these bytes: %r" % (what, e, self.held()))
            if e.errno != 13 or e.filename != "f":
                raise Bad("error", "%s raises %r about %r" % (what, e, e.filename))
            if self.node.data != before:
                raise Bad("io-result", "%s fails but changes the file" % what)
            self.ctx.count("mandatory_refusals")
        self.case("write" if write else "read", bad)

    def outsider(self):
        rng, K = self.rng, self.K
        if self.flocks and rng.random() < 0.5:
            a, b, e = self.flocks[0]
            with K.cond:
                K.UnlockFileEx(self.foreign, a, b - a)
            self.flocks = self.flocks[1:]
            self.log.append("foreign unlock %r" % ((a, b),))
            return
        a, n, e = rng.choice(BIG[:7]), rng.choice([1, 3, 10, 2 ** 33]), rng.random() < 0.6
        if any(clash(a, a + n, x, y) and (e or z) for (h, x, y, z) in self.held()):
            return
        K.LockFileEx(self.foreign, 1 | 2 * e, a, n)
        self.flocks = tuple(self.flocks) + ((a, a + n, e),)
        self.log.append("foreign lock %r" % ((a, a + n, e),))

    def close(self, s):
        self.log.append("close %d" % s["h"])
        if self.rng.random() < 0.7:
            s["f"].close()
        else:
            s["f"] = None
            gc.collect()
        self.streams.remove(s)
        h = s["h"]
        if h in self.K.handles:
            raise Bad("handle-leak", "close() leaves the handle open")
        self.check("closing %d" % h)
        self.case("close", bool(s["locks"]))

    def case(self, *key):
        self.ctx.count("ops")
        if key[0] in ("lock", "unlock"):
            self.ctx.count("lock_calls")
        self.ctx.case((self.binding, "locks") + key, True, sample={"history": self.log[-6:]} if self.rng.random() < 0.01 else None)

    def run(self):
        rng = self.rng
        for _ in range(rng.choice([5, 15, 40])):
            k = rng.random()
            if len(self.streams) < 2 or k < 0.1 and len(self.streams) < 4:
                self.open()
            elif k < 0.5:
                self.lock(rng.choice(self.streams))
            elif k < 0.75:
                self.unlock(rng.choice(self.streams))
            elif k < 0.9:
                self.io(rng.choice(self.streams))
            elif k < 0.95:
                self.outsider()
            else:
                self.close(rng.choice(self.streams))
        while self.streams:
            self.close(self.streams[0])
        settled(self.K, "after the history", (self.foreign,))


def waiting(ctx, rs, rng, binding):
    """A blocked locker proceeds when the conflict goes away, by any means."""
    K = sim.reset()
    node = K.add("f", b"0123456789")
    how = rng.choice(["unlock", "close", "with", "drop", "foreign", "timeout"])
    a = rs.rsopen("f", "r+b", buffering=rng.choice([0, -1]), locking=False) if how != "foreign" else None
    if how == "foreign":
        fh = K.new_handle(node)
        K.LockFileEx(fh, 3, 0, 10)
        cm = None
    else:
        cm = a.lock_file(timeout=0)
    out = []

    def go():
        try:
            t0 = time.monotonic()
            f = rs.rsopen("f", "r+b", timeout=None if how != "timeout" else 30)
            out.append(bytes(f.read(2)))
            f.close()
        except BaseException as e:
            out.append(e)
    t = threading.Thread(target=go)
    t.start()
    limit = time.monotonic() + 10
    while not (K.waiting or how == "timeout" and len([c for c in K.calls if c[0] == "LockFileEx"]) > 2) and not out and time.monotonic() < limit:
        time.sleep(0.001)
    if out:
        raise Bad("granted", "a locking open is over (%r) while another stream holds the lock" % out)
    if a is not None:
        a.write(b"XY")
    if how in ("unlock", "timeout"):
        a.unlock_file()
    elif how == "close":
        a.close()
    elif how == "with":
        try:
            with cm:
                raise KeyError
        except KeyError:
            pass
    elif how == "drop":
        cm = a = None
        gc.collect()
    else:
        with K.cond:
            K.CloseHandle(fh)
            K.lingering[:] = []
    t.join(40)
    if t.is_alive() or not out:
        raise Bad("stuck", "a blocked opener is not woken up by %s" % how)
    if out[0] != (b"01" if how == "foreign" else b"XY"):
        raise Bad("waited", "after %s the next owner sees %r" % (how, out[0]))
    if a is not None:
        a.close()
    a = cm = None
    settled(K, "after waiting (%s)" % how)
    ctx.count("waits")
    ctx.case((binding, "wait", how), True)


# ---- opening ------------------------------------------------------------------------------------------------------------

def opening(ctx, rs, rng, binding):
    K = sim.reset()
    std = rng.random() < 0.5
    if std:
        mode = rng.choice("rwax") + rng.choice(["", "+"]) + "b"
        r = "r" in mode or "+" in mode
        w = "r" not in mode or "+" in mode
        a, e, c, n = "a" in mode, "w" in mode, "x" in mode, "r" in mode
        s = i = False
    else:
        fl = {x: rng.random() < p for x, p in (("R", .6), ("W", .5), ("A", .2), ("E", .3), ("C", .3), ("N", .3), ("S", .3), ("I", .3))}
        r, w, a, e, c, n, s, i = (fl[x] for x in "RWAECNSI")
        w = w or a
        if not (r or w) or e and not w or c and n:
            return
        mode = [x for x in "RWAECNSI" if fl[x]] + ["B"]
        rng.shuffle(mode)
        mode = "".join(mode)
    state = rng.choice(["missing", "file", "file", "file", "readonly", "directory", "locked", "unshared"])
    content = b"previous content"
    node, mine = None, ()
    if state == "directory":
        K.dirs.add("p")
    elif state != "missing":
        node = K.add("p", content)
        if state == "readonly":
            node.attributes = 1
        if state in ("locked", "unshared"):
            mine = (K.new_handle(node, share=0 if state == "unshared" else 7),)
            if state == "locked":
                K.LockFileEx(mine[0], 3, 3, 2)
    perm = rng.choice([0o777, 0o444, 0o200, 0o600, 0, 0o577, 0o022, 0o466, rng.randrange(0o1000)])
    kw = {"buffering": rng.choice([0, -1, 10]), "permissions": perm, "thread_safe": rng.random() < 0.5}
    locking = rng.random() < 0.7
    kw["locking"] = locking
    if locking:
        kw["timeout"] = rng.choice([0, 0.004])
    what = "open(%r, %r) of a %s file" % (mode, kw, state)
    want = None
    if state == "directory":
        want = 13
    elif state == "missing":
        want = 2 if n else None
    elif c:
        want = 17
    elif state == "unshared" or state == "readonly" and w:
        want = 13
    elif state == "locked" and locking:
        want = 13
    K.calls[:] = []
    f, code = None, None
    try:
        f = rs.rsopen("p", mode, **kw)
    except OSError as x:
        code, name, kind = x.errno, x.filename, type(x)
    if code != want:
        raise Bad("open-result", "%s gives errno %r instead of %r" % (what, code, want))
    ctx.count("opens")
    ctx.count("ops")
    ctx.case((binding, "open", mode, state, want, locking), True)
    cr = [x for x in K.calls if x[0] == "CreateFile"]
    if len(cr) != 1:
        raise Bad("create-calls", "%s calls CreateFile %d times" % (what, len(cr)))
    path, access, share, inherit, disposition, flags = cr[0][1]
    exp = ("p", (sim.GENERIC_READ if r else 0) | (sim.GENERIC_WRITE if w else 0), 7, i, 1 if c else 3 if n else 4)
    if (path, access, share, inherit, disposition) != exp:
        raise Bad("create-arguments", "%s calls CreateFile with %r instead of %r" % (what, cr[0][1], exp))
    if bool(flags & 0x80000000) != s or bool(flags & 1) != (not perm & 0o200) or flags & 0x24000000:
        raise Bad("create-flags", "%s calls CreateFile with the flags %#x" % (what, flags))
    if want is not None:
        if name != "p":
            raise Bad("error", "%s reports the file name %r" % (what, name))
        if node is not None and node.data != content:
            raise Bad("damaged", "%s fails and changes the file" % what)
        gc.collect()
        settled(K, what, mine)
        return
    node = K.files["p"]
    if node.data != (b"" if e or c or state == "missing" else content):
        raise Bad("content", "%s leaves %r" % (what, bytes(node.data)))
    if e and content and locking:
        order = [x[0] for x in K.calls if x[0] in ("LockFileEx", "SetEndOfFile")]
        if "SetEndOfFile" in order and order.index("SetEndOfFile") < order.index("LockFileEx"):
            raise Bad("damaged", "%s truncates the file before locking it" % what)
    got = (f.readable(), f.writable(), f.tell())
    if got != (r, w, len(node.data) if a else 0):
        raise Bad("stream", "%s gives a stream readable=%r writable=%r at %r" % ((what,) + got))
    locks = [(x[2], x[4]) for x in K.locks if x[1] not in mine]
    if locks != ([(0, w)] if locking else []):
        raise Bad("kernel-locks", "%s takes the locks %r" % (what, locks))
    if w and not state == "locked":
        f.write(b"abc")
        f.flush()
        # other streams may append meanwhile
        if a and not (locking and rng.random() < 0.5):
            node.data += b"<other>"
            f.write(b"def")
            f.flush()
            if not node.data.endswith(b"abc<other>def"):
                raise Bad("append", "%s: appending after somebody else gives %r" % (what, bytes(node.data)))
            ctx.count("appends")
        if f.size() != len(node.data):
            raise Bad("size", "size() is %d instead of %d" % (f.size(), len(node.data)))
        if rng.random() < 0.4:
            k = len(K.calls)
            f.sync(*rng.choice([(), (True, False), (False, False)]))
            if not any(x[0] == "FlushFileBuffers" for x in K.calls[k:]):
                raise Bad("sync", "sync() flushes nothing")
    if rng.random() < 0.2:
        # file systems without file numbers: no identity rather than a wrong one
        if rng.random() < 0.5:
            K.no_index = True
        else:
            K.serial = 0
        try:
            raise Bad("unique-id", "unique_id() is %r, where the system gives no identity" % (f.unique_id(),))
        except OSError as x:
            if x.filename != "p":
                raise Bad("unique-id", "the missing identity is reported about %r" % (x.filename,))
        K.no_index, K.serial = False, rng.choice([0x1234, 0x80001234, 0xFFFFFFFF])
        ctx.count("no_identity")
    d, ino = f.unique_id()
    if (d, ino) != (K.serial, node.ident | 0x9000000080000000):
        raise Bad("unique-id", "unique_id() is %r instead of %r" % ((d, ino), (K.serial, node.ident | 0x9000000080000000)))
    if rng.random() < 0.5:
        node.times[:] = [rng.randrange(1 << 56, 1 << 57) for _ in range(3)]
    t = f.times()
    for x, y in ((t.access_time, node.times[1]), (t.modification_time, node.times[2])):
        if abs(x - (y - 116444736000000000) / 1e7) > 1e-5:
            raise Bad("times", "times() gives %r instead of %r" % (x, (y - 116444736000000000) / 1e7))
    if rng.random() < 0.5:
        f.fileno()
        if K.crt_handle(f.fileno()) != f.handle():
            raise Bad("handle", "fileno() and handle() do not belong together")
    f.close()
    try:
        f.tell()
        raise Bad("closed", "tell() works on a closed stream")
    except ValueError:
        pass
    f.close()
    f = None
    settled(K, what, mine)


# ---- faults -------------------------------------------------------------------------------------------------------------

FUNCS = ["CreateFile", "ReadFile", "WriteFile", "SetFilePointer", "SetEndOfFile", "GetFileSize", "FlushFileBuffers", "GetFileInformationByHandle", "LockFileEx", "UnlockFileEx", "CloseHandle", "open_osfhandle", "fstat"]
CRT = ("open_osfhandle", "fstat")


def faults(ctx, rs, rng, binding):
    """A failing system call is reported with its errno, and nothing stays behind."""
    K = sim.reset()
    data = bytes(rng.randrange(256) for _ in range(60))
    node = K.add("f", data)
    func = rng.choice(FUNCS)
    code = rng.choice([errno.EMFILE, errno.EIO]) if func in CRT else rng.choice([5, 8, 112, 1, 1450, 167, 1117, 87] if func != "CreateFile" else [5, 2, 32, 8, 1, 1450])
    skip = rng.choice([0, 0, 0, 1, 2])
    state = {"n": 0, "hit": False}

    def rule(name, args):
        if name == func and not state["hit"]:
            state["n"] += 1
            if state["n"] > skip:
                state["hit"] = True
                return code
    errno_ = code if func in CRT else {1: 22, 1450: 22, 1117: 22}.get(code, E.get(code, 22))
    log, f = [], None
    raised = None
    buffering = rng.choice([0, 0, -1])
    accepted = bytearray(data)
    pos = 0
    ops = ["open"] + [rng.choice(["read", "write", "seek", "truncate", "size", "sync", "unique_id", "times", "fileno", "lock", "unlock", "tell"]) for _ in range(8)] + ["close"]
    K.rule = rule
    locked = False
    for op in ops:
        was = state["hit"]
        log.append(op)
        try:
            if op == "open":
                f = rs.rsopen("f", "r+b", buffering=buffering, locking=False)
            elif op == "read":
                r = f.read(7)
                if not state["hit"] or was:
                    if r != bytes(accepted[pos:pos + 7]):
                        raise Bad("fault-data", "%s: read() at %d gives %r" % (log, pos, r))
                pos += len(r or b"")
            elif op == "write":
                x = bytes([rng.randrange(256)]) * 5
                if f.write(x) == 5:
                    accepted += bytes(max(0, pos - len(accepted)))
                    accepted[pos:pos + 5] = x
                    pos += 5
            elif op == "seek":
                pos = f.seek(rng.randrange(30))
            elif op == "tell":
                if f.tell() != pos:
                    raise Bad("fault-position", "%s: tell() gives %r instead of %r" % (log, f.tell(), pos))
            elif op == "truncate":
                n = rng.randrange(20, 80)
                f.truncate(n)
                accepted = accepted[:n] + bytes(max(0, n - len(accepted)))
            elif op == "lock":
                if not locked:
                    f.lock_file(timeout=rng.choice([0, None]))
                    locked = True
            elif op == "unlock":
                if locked:
                    locked = False
                    f.unlock_file()
            elif op == "close":
                f.close()
            elif op == "size":
                if f.size() != len(accepted):
                    raise Bad("fault-size", "%s: size() gives %r instead of %d (%s fails with %d: %r)" % (log, f.size(), len(accepted), func, code, state))
            else:
                getattr(f, op)()
            if state["hit"] and not was:
                # the failure was swallowed: only a wait for the lock may retry
                if op != "lock" and func not in CRT:
                    raise Bad("fault-swallowed", "%s: the error %d of %s is not reported by %s" % (log, code, func, op))
        except OSError as e:
            if not state["hit"] or was:
                raise Bad("fault-unexpected", "%s raises %r without any failing call" % (log, e))
            raised = e
            if e.errno != errno_ and not (func == "CloseHandle" and e.errno == 9):  # the C runtime reports EBADF
                raise Bad("fault-errno", "%s: the error %d of %s is reported with errno %r instead of %d" % (log, code, func, e.errno, errno_))
            if str(e.filename) != "f" and func != "CloseHandle" and func not in CRT:
                raise Bad("fault-filename", "%s: the error of %s is reported for the file %r" % (log, func, e.filename))
            break
        except Bad:
            raise
        if state["hit"]:
            break
    ctx.count("faults" if state["hit"] else "unfaulted")
    ctx.count("ops")
    ctx.case((binding, "fault", func, code, buffering, log[-1], bool(raised)), state["hit"])
    K.rule = None
    if f is not None and log[-1] != "close":
        f.close()
    if not raised and node.data != accepted:
        raise Bad("fault-data", "%s (%s fails with %d: %r) leaves other data than was written" % (log, func, code, state))
    raised = e = None
    f = None
    gc.collect()
    if func != "CloseHandle" and not (func == "UnlockFileEx" and log[-1] == "close"):
        settled(K, "after %s with the error %d of %s" % (log, code, func)) if code not in SPURIOUS else None
    for h in K.handles:
        if func != "CloseHandle":
            raise Bad("handle-leak", "%s: a handle stays open after the error %d of %s" % (log, code, func))


# ---- pipes --------------------------------------------------------------------------------------------------------------

def pipes(ctx, rs, rng, binding):
    K = sim.reset()
    node = K.add("pipe", b"", "pipe")
    nb = node.nonblocking = rng.random() < 0.6
    node.capacity = rng.choice([1, 10, 100])
    h = K.new_handle(node, sim.GENERIC_READ if rng.random() < 0.5 else sim.GENERIC_WRITE)
    reading = bool(K.handles[h].access & sim.GENERIC_READ)
    fd = K.new_fd(h)
    mode = rng.choice(["rb", "RB"]) if reading else rng.choice(["wb", "WB", "ab", "AB"])
    f = rs.rsopen(None, mode, buffering=0, fileno=fd, thread_safe=rng.random() < 0.5)
    if any(c[0] in ("LockFileEx", "SetEndOfFile") for c in K.calls):
        raise Bad("pipe-lock", "a pipe gets locked or truncated")
    if f.seekable():
        raise Bad("pipe-seekable", "a pipe is seekable")
    for _ in range(rng.choice([3, 10])):
        ctx.count("pipe_ops")
        ctx.count("ops")
        if reading:
            k = rng.random()
            if k < 0.4 and node.peer_open:
                node.data += rng.randbytes(rng.randrange(1, 20))
            elif k < 0.5:
                node.peer_open = False
            n = rng.randrange(1, 12)
            exp = bytes(node.data[:n]) if node.data else None if node.peer_open and nb else b""
            if exp == b"" and node.peer_open:
                continue
            if rng.random() < 0.5:
                got = f.read(n)
            else:
                b = bytearray(n)
                got = f.readinto(b)
                got = got if got is None else bytes(b[:got])
            if got != exp:
                raise Bad("pipe-read", "reading %d bytes gives %r instead of %r" % (n, got, exp))
            ctx.case((binding, "pipe-read", exp is None, exp == b"", nb), True)
        else:
            x = rng.randbytes(rng.randrange(1, 20))
            before = bytes(node.data)
            if nb:
                room = node.capacity - len(before)
                exp = min(room, len(x)) or None
            else:
                exp = len(x)
            got = f.write(x)
            if got != exp or node.data != before + x[:got or 0]:
                raise Bad("pipe-write", "writing %d bytes gives %r instead of %r" % (len(x), got, exp))
            if rng.random() < 0.4:
                node.data[:rng.randrange(0, 12)] = b""
            ctx.case((binding, "pipe-write", exp is None, exp == len(x), nb), True)
    for call in (f.truncate, f.lock_file, lambda: f.unlock_file()):
        try:
            call()
        except (OSError, ValueError):
            continue
        raise Bad("pipe-refusals", "a pipe accepts truncation or locking")
    f.close()
    f = None
    settled(K, "after using a pipe")


def run(ctx, binding, i):
    rs = sim.load(binding)
    if rs.RSFileIO.__module__ != "rsfile.rsfileio_windows":
        raise sim.SimError("the Windows backend is not in use")
    c10.os = simos()
    rng = ctx.rng
    contents = Contents(ctx, rs, binding)
    n = 0

    def guard(f, *a):
        try:
            f(*a)
        except Bad as b:
            ctx.violation(b.mech, "%s [%s]" % (b.msg, binding), log=getattr(getattr(f, "__self__", None), "log", [])[-40:])
        except sim.SimError:
            raise
        except vf.StopShard:
            raise
        except Exception as e:
            if not vf.from_repo(e.__traceback__) and "_pyio" not in traceback.format_exc():
                raise
            ctx.violation("raised:" + type(e).__name__, "%r in %s [%s]" % (e, getattr(f, "__name__", f), binding), log=getattr(getattr(f, "__self__", None), "log", [])[-40:],
                          traceback=traceback.format_exc()[-1500:])
        finally:
            sim.K.rule = None
    while ctx.more(n, 25, 10 ** 9):
        if n % 20 == 0:
            ctx.crumb("round %d" % n)
        gc.collect()
        contents.one()
        contents.st = None
        guard(Locks(ctx, rs, rng, binding).run)
        for f in (opening, opening, opening, faults, faults, faults, pipes):
            gc.collect(0)
            guard(f, ctx, rs, rng, binding)
        guard(text, ctx, rs, rng)
        if n % 6 == 0:
            guard(waiting, ctx, rs, rng, binding)
        n += 1
