"""C24: work done under a lock is visible to the next owner of the lock."""
import _pyio, gc, hashlib, os, pickle, random, signal, socket, struct, threading, time, traceback
from lib import vf, shim, linear
from lib.locks import INF

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: sequential histories of several streams (three processes, all layers) holding overlapping sets of locks are judged online against one byte array, with the bytes on "
             "file and the system calls examined at each release of a lock; races of read-modify-write sections by threads and processes are judged offline (every version read must be the last one "
             "written: single chain, real-time order, checksums)")
NOTE = "Sampled histories and schedules, with injected delays around system calls. POSIX record locks of the kernel on a local file system are trusted."
RULE = ("one release or access judged in a sequential history: distinct by (stream kind, layer, operation, release form, state of its buffers, other holders); one race: distinct by (variant, worker kinds, order of "
        "the writers). Non-trivial when the previous owner of the bytes was another stream.")
BUDGET = {"quick": 11, "thorough": 180}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"histories": 250, "releases": 1500, "cross_reads": 300, "races": 30, "sections": 1000, "handovers": 250, "arrivals": 40, "positions_locked": 800}

HELD = {}


def shards(tier, seed):
    return [("v%d" % i, {"i": i}) for i in range(8)]


class Odd(Exception):
    pass


class Gone(Exception):
    pass


# ------------------------------------------------------------------------------------------------
# actors: processes owning streams, executing one call at a time

class Local:
    """Streams of one process."""

    def __init__(self, rs):
        self.rs, self.streams, self.mgrs = rs, {}, {}

    def do(self, cmd, sid, *a):
        try:
            return True, getattr(self, "do_" + cmd)(sid, *a)
        except Exception as e:
            return False, (type(e).__name__, str(e), vf.from_repo(e.__traceback__), traceback.format_exc())

    def do_open(self, sid, path, mode, kw):
        s = self.rs.rsopen(path, mode, **kw)
        self.streams[sid] = s

    def do_call(self, sid, name, *args):
        r = getattr(self.streams[sid], name)(*args)
        return r if isinstance(r, (bytes, str, int, type(None), bool, list)) else None

    def do_next(self, sid):
        return next(self.streams[sid], None)

    def do_readinto(self, sid, n):
        b = bytearray(n)
        k = self.streams[sid].readinto(b)
        return bytes(b[:k])

    def do_writeall(self, sid, data):
        s = self.streams[sid]
        left = data
        while left:
            n = s.write(left)
            left = left[n:]

    def do_lock(self, sid, key, kw, enter):
        m = self.streams[sid].lock_file(**kw)
        if enter:
            m.__enter__()
            self.mgrs[key] = m

    def do_leave(self, sid, key, exc):
        m = self.mgrs.pop(key)
        if exc:
            e = Gone("left by an exception")
            if m.__exit__(Gone, e, None):
                raise AssertionError("exception swallowed")
        else:
            m.__exit__(None, None, None)

    def do_unlock(self, sid, kw):
        self.streams[sid].unlock_file(**kw)

    def do_close(self, sid, how):
        s = self.streams.pop(sid)
        if how == "close":
            s.close()
        elif how == "with":
            with s:
                pass
        elif how == "with-exc":
            try:
                with s:
                    raise Gone()
            except Gone:
                pass
        else:
            s = None
        for k in [k for k in self.mgrs if k[0] == sid]:
            del self.mgrs[k]
        if how == "del":
            gc.collect(0)

    def do_reset(self, sid):
        self.mgrs.clear()
        for s in list(self.streams.values()):
            try:
                s.close()
            except Exception:
                pass
        self.streams.clear()


class Remote:
    """The same in a child process."""

    def __init__(self, rs):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                loc = Local(rs)
                while True:
                    h = b.recv(4, socket.MSG_WAITALL)
                    if len(h) < 4:
                        break
                    r = pickle.dumps(loc.do(*pickle.loads(b.recv(struct.unpack("<I", h)[0], socket.MSG_WAITALL))))
                    b.sendall(struct.pack("<I", len(r)) + r)
            finally:
                os._exit(0)
        b.close()
        self.sock = a

    def do(self, *cmd):
        d = pickle.dumps(cmd)
        self.sock.sendall(struct.pack("<I", len(d)) + d)
        h = self.sock.recv(4, socket.MSG_WAITALL)
        if len(h) < 4:
            raise Odd("a process died")
        return pickle.loads(self.sock.recv(struct.unpack("<I", h)[0], socket.MSG_WAITALL))

    def stop(self):
        self.sock.close()
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


# ------------------------------------------------------------------------------------------------
# sequential histories

MODES = {"rw": "RW", "r": "R", "w": "W", "a": "RA", "wa": "A"}


class S:
    """One stream of a history."""

    def __init__(self, sid, actor, kind, layer, buffering, ts, enc):
        self.sid, self.actor, self.kind, self.layer, self.buffering, self.ts, self.enc = sid, actor, kind, layer, buffering, ts, enc
        self.pos = None  # logical position, when known
        self.held = []  # (start, end, shared, key, how to release it)
        self.open = False
        self.iterating = False
        self.dirty = False
        self.ahead = False

    def name(self):
        return "%s/%s/%s%s" % (self.kind, self.layer, self.buffering, "/ts" if self.ts else "")


class History:
    def __init__(self, ctx, rs, actors, obs_calls):
        self.ctx, self.rng, self.actors = ctx, ctx.rng, actors
        rng = self.rng
        self.path = ctx.fresh("h")
        self.multi = rng.random() < 0.25  # multi-byte text: records of a fixed size, whole-file locks only
        self.enc = rng.choice(["utf-8", "utf-16-le", "utf-32-be"]) if self.multi else None
        self.W = rng.choice([8, 16]) if self.multi else 1
        n = rng.choice([3, 10, 40, 200]) * (1 if self.multi else rng.choice([1, 10]))
        if not self.multi and rng.random() < 0.15:
            n = rng.choice([9000, 20000])
        self.M = bytearray(b"".join(self.record() for _ in range(n)))
        with open(self.path, "wb") as f:
            f.write(self.M)
        self.obs = os.open(self.path, os.O_RDONLY)
        self.last = {}  # stream which wrote last, by zones of bytes
        self.author = [None] * 0
        self.streams = []
        self.key = 0
        self.log = []
        for i in range(rng.choice([2, 2, 3, 4])):
            self.streams.append(self.make(i))

    def record(self):
        rng = self.rng
        if not self.multi:
            return bytes([rng.choice(b"abcdefghij\n")])
        t = ""
        while True:
            room = self.W - len(t.encode(self.enc))
            if not room:
                return t.encode(self.enc)
            c = rng.choice("aé€😀\n")
            if len(c.encode(self.enc)) <= room:
                t += c
            else:
                c = "b"
                if len(c.encode(self.enc)) <= room:
                    t += c

    def make(self, i):
        rng = self.rng
        kind = rng.choice(["rw", "rw", "rw", "r", "w", "a", "wa"])
        layer = rng.choice(["raw", "buf", "buf", "text", "text"])
        if layer == "raw":
            b = 0
        else:
            b = rng.choice([2, 3, 7, 16, 64, 8192, -1])
        enc = (self.enc if self.multi else rng.choice(["ascii", "utf-8", "latin-1"])) if layer == "text" else None
        return S(i, rng.choice(self.actors), kind, layer, b, rng.random() < 0.5, enc)

    # -- plumbing
    def do(self, s, cmd, *a, ok=True):
        self.log.append((s.sid, cmd) + tuple(x if not isinstance(x, (bytes, str)) or len(x) < 40 else x[:37] + type(x)(b"..." if isinstance(x, bytes) else "...") for x in a))
        good, res = s.actor.do(cmd, s.sid, *a)
        if not good and ok:
            raise Odd("%s fails on %s: %s: %s" % (cmd if cmd != "call" else a[0], s.name(), res[0], res[1]))
        return res if ok else (good, res)

    def opened(self, s):
        if s.open:
            return
        kw = dict(thread_safe=s.ts, locking=False, buffering=s.buffering)
        mode = MODES[s.kind] + ("T" if s.layer == "text" else "B")
        if s.layer == "text":
            kw["encoding"] = s.enc
            kw["newline"] = self.rng.choice(["", "\n"])
        self.do(s, "open", self.path, mode, kw)
        s.open, s.pos, s.iterating, s.dirty, s.ahead = True, None, False, False, False
        s.held = []

    # -- locks
    def conflicts(self, s, a, b, shared):
        for o in self.streams:
            for h in o.held:
                if max(h[0], a) < min(h[1], b) and (o is s or not (shared and h[2])):
                    return True
        return False

    def lock(self, s):
        rng = self.rng
        if s.kind in ("w", "wa"):
            shared = False
        elif s.kind == "r":
            shared = True
        else:
            shared = rng.random() < 0.3
        size = len(self.M)
        if self.multi or rng.random() < 0.35:
            a, b = 0, INF
        else:
            a = rng.choice([0, rng.randrange(size + 1), rng.randrange(size + 1)])
            b = rng.choice([INF, a + 1 + rng.randrange(size + 1), a + rng.choice([1, 5, 20])])
        if s.kind in ("a", "wa") and rng.random() < 0.7:
            b = INF
        conflict = self.conflicts(s, a, b, shared)
        direct = s.iterating and not conflict and rng.random() < 0.6
        if s.iterating and not direct:
            self.do(s, "call", "seek", 0)
            s.iterating, s.pos = False, 0
        kw = dict(offset=a, length=None if b == INF else b - a, shared=shared, timeout=0)
        if conflict:
            if any(max(h[0], a) < min(h[1], b) for h in s.held) or rng.random() < 0.7:
                return
            good, res = self.do(s, "lock", None, kw, False, ok=False)
            if good or res[0] != "LockingException":
                raise Odd("a conflicting lock gives %s" % (res,))
            self.after_reset(s)
            return
        self.key += 1
        how = rng.choice(["unlock", "unlock", "leave", "leave", "leave-exc", "close"])
        if direct:
            # in the middle of an iteration the lock is refused, unless the lines read ahead get dropped
            good, res = self.do(s, "lock", (s.sid, self.key), kw, how.startswith("leave"), ok=False)
            self.ctx.count("locks_in_iterations")
            s.iterating, s.pos = False, s.after
            if not good:
                if res[0] != "OSError" or "next()" not in res[1]:
                    raise Odd("%s: locking in the middle of an iteration fails with %s: %s" % (s.name(), res[0], res[1]))
                self.do(s, "call", "seek", 0)
                s.pos = 0
        if not direct or not good:
            self.do(s, "lock", (s.sid, self.key), kw, how.startswith("leave"))
        s.held.append((a, b, shared, (s.sid, self.key), how))
        self.after_reset(s)
        self.ctx.count("locks")

    def after_reset(self, s):
        s.dirty = s.ahead = False

    def release(self, s, h):
        rng = self.rng
        a, b, shared, key, how = h
        frm = shim.mark()
        state = (s.dirty, s.ahead, s.iterating)
        released = [h]
        if how == "close" or rng.random() < 0.08:
            how = rng.choice(["close", "close", "with", "with-exc", "del"])
            if how == "del" and any(x[4].startswith("leave") for x in s.held):
                how = "close"
            self.do(s, "close", how)
            released, s.held, s.open = s.held, [], False
        elif how == "unlock":
            self.do(s, "unlock", dict(offset=a, length=None if b == INF else b - a))
            s.held.remove(h)
            self.after_reset(s)
        else:
            self.do(s, "leave", key, how == "leave-exc")
            s.held.remove(h)
            s.dirty = False
        self.ctx.count("releases")
        # nothing is written once the first lock is gone
        gone = False
        for r in shim.records(frm):
            if r.call == shim.FCNTL and r.x2 == 2 and r.x1 in (6, 7) and r.ret == 0:
                gone = True
            elif r.call in (shim.WRITE, shim.FTRUNC) and gone:
                raise Odd("%s: the file is still changed after the lock has been released by %s: %r" % (s.name(), how, r))
        for (x, y, sh, k, _) in released:
            if not sh:
                e = min(y, max(len(self.M), x))
                got = os.pread(self.obs, (e - x) if y != INF else e - x + 100, x)
                if got != bytes(self.M[x:e]):
                    raise Odd("%s: when the lock is released by %s, the file holds %.80r instead of %.80r at %d" % (s.name(), how, got, bytes(self.M[x:e]), x))
        others = sum(1 for o in self.streams if o is not s and o.held)
        self.ctx.case(("release", s.kind, s.layer, s.buffering, how, state, s.ts, others), any(state) or others > 0)

    # -- accesses
    def spans(self, s, exclusive):
        """Contiguous spans of bytes held by s (locks may touch each other)."""
        iv = sorted((h[0], h[1]) for h in s.held if not (exclusive and h[2]))
        out = []
        for a, b in iv:
            if out and a <= out[-1][1]:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        return out

    def dec(self, s, data):
        return bytes(data).decode(s.enc) if s.layer == "text" else bytes(data)

    def compare(self, s, what, got, want, a, b):
        self.ctx.count("reads")
        foreign = any(w is not s and max(x, a) < min(y, b) for (x, y), w in self.last.items())
        if foreign:
            self.ctx.count("cross_reads")
        if got != want:
            raise Odd("%s: %s at %d gives %.80r instead of %.80r%s" % (s.name(), what, a, got, want, " (written by another stream)" if foreign else ""))
        self.ctx.case(("read", s.kind, s.layer, s.buffering, what.split("(")[0], s.ts, foreign), foreign)

    def read(self, s):
        rng = self.rng
        if s.kind in ("w", "wa") or s.iterating:
            return
        sp = self.spans(s, False)
        size = len(self.M)
        sp = [(a, b) for a, b in sp if a < size or b == INF]
        if not sp:
            return
        a, b = rng.choice(sp)
        cur = s.pos is not None and not (s.layer == "text" and s.dirty) and any(x <= s.pos < y for x, y in sp) and rng.random() < 0.6
        if cur:
            p = s.pos
            a, b = next((x, y) for x, y in sp if x <= p < y)
        else:
            p = a + rng.randrange(max(1, min(b, size) - a)) // self.W * self.W
            news = [x for (x, y), w in self.last.items() if w is not s and a <= x < min(b, size)]
            if news and rng.random() < 0.6:
                p = max(a, rng.choice(news) - rng.choice([0, 0, 1, 5, 30])) // self.W * self.W
            self.do(s, "call", "seek", p)
        top = size if b == INF else min(b, size)
        what = rng.choice(["read", "read", "read", "readline", "next", "readinto", "read1", "all"])
        if what == "all" and b == INF and s.layer != "raw":
            got = self.do(s, "call", "read")
            s.pos, s.ahead = max(p, size), False
            return self.compare(s, "read()", got, self.dec(s, self.M[p:]), p, size)
        if what in ("readline", "next") and s.layer != "raw" and not self.multi:
            i = self.M.find(b"\n", p)
            if 0 <= i < top or b == INF and p < size:
                e = i + 1 if i >= 0 else size
                if what == "next":
                    got = self.do(s, "next")
                    s.iterating = s.layer == "text"
                else:
                    got = self.do(s, "call", "readline")
                s.pos, s.ahead, s.after = (None if s.iterating else e), True, e
                return self.compare(s, what + "()", got, self.dec(s, self.M[p:e]), p, e)
        n = min(rng.choice([1, 2, 5, 17, 100, 5000]) * self.W, max(0, top - p))
        if n <= 0:
            if b != INF or s.layer == "raw":
                s.pos = p
                return
            n = 0
        e = p + n
        if what == "readinto" and s.layer != "text":
            got = self.do(s, "readinto", n)
        elif what == "read1" and s.layer == "buf":
            got = self.do(s, "call", "read1", n)
            if len(got) == 0 and n:
                raise Odd("%s: read1(%d) at %d gives nothing" % (s.name(), n, p))
            e = p + len(got)
        else:
            t = self.dec(s, self.M[p:e])
            got = self.do(s, "call", "read", len(t))
        s.pos, s.ahead = e if e % self.W == 0 else None, True
        self.compare(s, what + "(%d)" % n, got, self.dec(s, self.M[p:e]), p, e)

    def wrote(self, s, a, b):
        self.last = {(x, y): w for (x, y), w in self.last.items() if not (a <= x and y <= b)}
        self.last[(a, b)] = s
        if len(self.last) > 60:
            self.last.pop(next(iter(self.last)))
        s.dirty = s.layer != "raw"

    def write(self, s):
        rng = self.rng
        if s.kind == "r" or s.iterating:
            return
        sp = self.spans(s, True)
        if not sp:
            return
        size = len(self.M)
        if s.kind in ("a", "wa"):
            sp = [(a, b) for a, b in sp if a <= size and b == INF]
            if not sp:
                return
            p, top = size, INF
        else:
            a, b = rng.choice(sp)
            top = b
            hi = min(b - 1, size + (20 if b == INF else 0)) if b != INF else size + rng.choice([0, 0, 0, 20 * self.W])
            hi = min(hi, size) if b != INF else hi
            if a > hi:
                return
            p = a + rng.randrange(hi - a + 1) // self.W * self.W
            if s.pos is not None and a <= s.pos < b and s.pos <= hi and rng.random() < 0.5 and not (s.layer == "text" and (s.ahead or s.pos > size)):
                p = s.pos
            else:
                self.do(s, "call", "seek", p)
        n = rng.choice([1, 1, 3, 10, 40, 300])
        if top != INF:
            n = min(n, min(top, size) - p)
        if n <= 0:
            s.pos = p
            return
        data = b"".join(self.record() for _ in range(n))
        self.do(s, "writeall" if s.layer == "raw" else "call", *(() if s.layer == "raw" else ("write",)), self.dec(s, data))
        if p > size:
            self.M += b"\0" * (p - size)
        self.M[p:p + len(data)] = data
        s.pos = p + len(data)
        s.ahead = False
        self.wrote(s, min(p, size), s.pos)
        self.ctx.count("writes")

    def truncate(self, s):
        rng = self.rng
        sp = [(a, b) for a, b in self.spans(s, True) if b == INF and a <= len(self.M)]
        if not sp or s.kind == "r" or s.iterating:
            return
        a = -(-sp[0][0] // self.W) * self.W
        n = rng.choice([a, len(self.M), a + rng.randrange(len(self.M) - a + 1) if a <= len(self.M) else a, len(self.M) + 30]) // self.W * self.W
        if n < sp[0][0]:
            return
        self.do(s, "call", "truncate", n)
        size = len(self.M)
        if n < size:
            del self.M[n:]
        else:
            self.M += b"\0" * (n - size)
        s.pos = None
        s.dirty = s.ahead = False
        self.wrote(s, min(n, size), max(n, size))
        s.dirty = False
        self.ctx.count("truncations")

    def size(self, s):
        if any(b == INF and a <= len(self.M) for a, b in self.spans(s, False)):
            got = self.do(s, "call", "size")
            s.dirty = False
            if got != len(self.M):
                raise Odd("%s: size() is %d instead of %d" % (s.name(), got, len(self.M)))
            self.ctx.count("sizes")

    def step(self):
        rng = self.rng
        s = rng.choice(self.streams)
        self.opened(s)
        if not s.held:
            self.lock(s)
            return
        k = rng.random()
        if k < 0.35:
            self.read(s)
        elif k < 0.62:
            self.write(s)
        elif k < 0.66:
            self.truncate(s)
        elif k < 0.70:
            self.size(s)
        elif k < 0.73:
            self.do(s, "call", "flush")
            s.dirty = False
        elif k < 0.80:
            self.lock(s)
        else:
            self.release(s, rng.choice(s.held))

    def run(self):
        ctx = self.ctx
        try:
            for _ in range(self.rng.choice([20, 40, 80])):
                self.step()
            for s in self.streams:
                while s.held:
                    self.release(s, s.held[0])
            ctx.count("histories")
            for s in self.streams:
                if s.open:
                    self.do(s, "close", "close")
            with open(self.path, "rb") as f:
                d = f.read()
            if d != self.M:
                raise Odd("the file ends with %.80r instead of %.80r" % (d, bytes(self.M)))
        except Odd as e:
            ctx.violation("sequential", "%s" % e, history=[repr(x) for x in self.log[-60:]], streams=[s.name() for s in self.streams])
        finally:
            for a in self.actors:
                a.do("reset", None)
            os.close(self.obs)
            os.unlink(self.path)


# ------------------------------------------------------------------------------------------------
# races of read-modify-write sections

REC = 64


def make_record(region, version, token):
    body = b"%04d %010d %016x" % (region, version, token)
    return body + b" " + hashlib.md5(body).hexdigest().encode()[:REC - len(body) - 2] + b"\n"


def parse_record(data):
    if len(data) != REC and len(data) < 33:
        raise Odd("a section reads %.90r" % data)
    body, sep, rest = data[:32], data[32:33], data[33:]
    if rest.rstrip(b"\n") != hashlib.md5(body).hexdigest().encode()[:REC - 34] or not data.endswith(b"\n"):
        raise Odd("a section reads an inconsistent record %.90r" % data)
    a, b, c = body.split()
    return int(a), int(b), int(c, 16)


def enc(s, text):
    return s.encode() if text else bytes(s)


class Worker:
    """Read-modify-write sections in a thread."""

    def __init__(self, rs, path, spec, k, seed, shared_stream=None):
        self.rs, self.path, self.spec, self.k, self.rng = rs, path, spec, k, random.Random(seed)
        self.log = []
        self.s = shared_stream
        self.mine = shared_stream is None

    def stream(self, locking=False, mode="RW"):
        sp = self.spec
        kw = dict(thread_safe=sp["ts"], locking=locking, buffering=sp["buffering"])
        text = sp["layer"] == "text"
        if text:
            kw.update(encoding="ascii", newline="")
        return self.rs.rsopen(self.path, mode + ("T" if text else "B"), **kw)

    def put(self, s, data):
        if self.spec["layer"] == "raw":
            while data:
                n = s.write(data)
                data = data[n:]
        else:
            s.write(data.decode() if self.spec["layer"] == "text" else data)

    def get(self, s, n=None):
        if self.spec["layer"] == "raw":
            out = b""
            while n is None or len(out) < n:
                d = s.read(65536 if n is None else n - len(out))
                if not d:
                    break
                out += d
            return out
        d = s.read() if n is None else s.read(n)
        return d.encode() if self.spec["layer"] == "text" else d

    def run(self, n):
        for _ in range(n):
            if self.mine and self.s is None and self.spec["form"] != "open":
                self.s = self.stream()
            if not self.mine:
                with self.s.mutex:
                    self.section()
            else:
                self.section()
            if self.mine and self.s is not None and self.rng.random() < self.spec["reopen"]:
                self.s.close()
                self.s = None
        if self.mine and self.s is not None:
            self.s.close()

    def section(self):
        rng, sp = self.rng, self.spec
        variant = sp["variant"]
        reader = rng.random() < sp["readers"]
        form = sp["form"]
        if variant == "records":
            regs = sorted(rng.sample(range(sp["regions"]), min(sp["regions"], rng.choice([1, 1, 2]))))
        else:
            regs = [0]
        t0 = time.monotonic_ns()
        if form == "open":
            s = self.stream(True, "R" if reader else "RW")
            try:
                done = [self.body(s, r, reader) for r in regs]
            finally:
                s.close()
        else:
            s = self.s
            todo, done = [], []

            def inner(rest):
                if not rest:
                    for r in regs:
                        done.append(self.body(s, r, reader))
                    return
                r = rest[0]
                kw = dict(offset=r * REC, length=REC) if variant == "records" else dict(offset=0, length=None)
                kw["shared"] = reader
                if form == "with" or form == "mixed" and rng.random() < 0.5:
                    with s.lock_file(**kw):
                        inner(rest[1:])
                else:
                    s.lock_file(**kw)
                    inner(rest[1:])
                    kw.pop("shared")
                    if form == "close" and rest[0] == regs[0]:
                        s.close()
                        self.s = None
                    elif not s.closed:
                        s.unlock_file(**kw)
            if form == "close" and len(regs) > 1:
                regs = regs[:1]
            inner(regs)
        t1 = time.monotonic_ns()
        for d in done:
            self.log.append((t0, t1) + d)

    def body(self, s, r, reader):
        """One access to a record under the lock: (region, version read, token read, token written or None)."""
        rng = self.rng
        variant = self.spec["variant"]
        tok = rng.getrandbits(60) << 4 | self.k & 15
        if variant == "records":
            s.seek(r * REC)
            rr, v, t = parse_record(self.get(s, REC))
            if rr != r:
                raise Odd("region %d holds the record of region %d" % (r, rr))
            if not reader:
                s.seek(r * REC)
                self.put(s, make_record(r, v + 1, tok))
        elif variant == "rewrite":  # the whole file, of varying length
            s.seek(0)
            data = self.get(s)
            rec, pad = data[:REC], data[REC:]
            rr, v, t = parse_record(rec)
            if pad != b"%d" % (v % 10) * len(pad):
                raise Odd("the tail of version %d is %.60r" % (v, pad))
            if not reader:
                s.seek(0)
                if rng.random() < 0.7:
                    s.truncate()
                    keep = 0
                else:
                    keep = len(pad)
                self.put(s, make_record(0, v + 1, tok) + b"%d" % ((v + 1) % 10) * max(keep, rng.choice([0, 3, 50, 9000])))
        else:  # log
            s.seek(0, 2)
            end = s.tell()
            if end % REC:
                raise Odd("the log has %d bytes" % end)
            s.seek(end - REC)
            rr, v, t = parse_record(self.get(s, REC))
            if v != end // REC - 1:
                raise Odd("the last record of a log of %d bytes is the %dth one" % (end, v))
            if not reader:
                s.seek(0, 2)
                self.put(s, make_record(0, v + 1, tok))
        return (r, v, t, None if reader else tok)


def race(ctx, rs):
    rng = ctx.rng
    path = ctx.fresh("r")
    variant = rng.choice(["records", "records", "rewrite", "log"])
    regions = rng.choice([1, 3, 8]) if variant == "records" else 1
    with open(path, "wb") as f:
        f.write(b"".join(make_record(i, 0, 7 + i) for i in range(regions)))
    nw = rng.choice([2, 3, 4, 6])
    specs = []
    for k in range(nw):
        layer = rng.choice(["raw", "buf", "buf", "text", "text"])
        form = rng.choice(["with", "unlock", "mixed", "close"] + (["open"] if variant != "records" or regions == 1 else []))
        specs.append(dict(variant=variant, regions=regions, layer=layer, form=form, ts=rng.random() < 0.5, buffering=0 if layer == "raw" else rng.choice([16, 70, 8192, -1]),
                          readers=rng.choice([0, 0.2, 0.4]), reopen=rng.choice([0, 0, 0.3])))
    procs = rng.choice([[0] * nw, list(range(nw)), [k % 2 for k in range(nw)], [k % 3 for k in range(nw)]])
    share = [k for k in range(nw) if procs[k] == 0]
    share = share if len(share) > 1 and rng.random() < 0.35 else []
    for k in share:
        specs[k] = dict(specs[share[0]], ts=True, form=rng.choice(["with", "unlock", "mixed"]), reopen=0)
    n = rng.choice([5, 10, 20])
    seeds = [rng.random() for _ in range(nw)]
    what = "%s, %d workers %s processes %s%s" % (variant, nw, [(s["layer"], s["buffering"], s["form"]) for s in specs], procs, " sharing a stream %s" % share if share else "")
    ctx.crumb(what)
    shim.perturb(rng.getrandbits(40), rng.choice([0, 100, 400]), rng.choice([50, 300]))

    def work(ks, errs, outs):
        common = None
        if ks and ks[0] in share:
            common = Worker(rs, path, specs[ks[0]], 0, 0).stream()
        ws = {k: Worker(rs, path, specs[k], k, seeds[k], common if k in share else None) for k in ks}

        def body(k):
            try:
                ws[k].run(n)
            except BaseException:
                errs.append(traceback.format_exc())
                try:
                    if ws[k].mine and ws[k].s is not None:
                        ws[k].s.close()
                except Exception:
                    pass
        ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in ks]
        with linear.jitter(ctx, random.Random(seeds[ks[0]])):
            for t in ths:
                t.start()
            end = time.monotonic() + 60
            for t in ths:
                t.join(max(0.01, end - time.monotonic()))
                if t.is_alive():
                    errs.append("a worker is stuck")
                    return
        if common is not None:
            common.close()
        for k in ks:
            outs[k] = ws[k].log
    groups = sorted(set(procs))
    kids = []
    r0, w0 = os.pipe()
    for g in groups[1:]:
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w0)
                os.read(r0, 1)
                errs, outs = [], {}
                work([k for k in range(nw) if procs[k] == g], errs, outs)
                with os.fdopen(pw, "wb") as f:
                    pickle.dump((errs, outs), f)
            finally:
                os._exit(0)
        os.close(pw)
        kids.append((pid, pr))
    errs, outs = [], {}
    os.close(w0)
    os.close(r0)
    work([k for k in range(nw) if procs[k] == groups[0]], errs, outs)
    for pid, pr in kids:
        with os.fdopen(pr, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            errs.append("a child died")
        else:
            e2, o2 = pickle.loads(raw)
            errs += e2
            outs.update(o2)
    shim.perturb(1, 0, 0)
    ctx.count("races")
    try:
        if errs:
            first = next((e for e in errs if "Odd" in e), errs[0])
            ctx.violation("race", "%s [%s]" % (first.strip().splitlines()[-1], what), trace=first)
            return
        judge(ctx, path, variant, regions, outs, what)
    except Odd as e:
        ctx.violation("race", "%s [%s]" % (e, what))
    finally:
        os.unlink(path)


def judge(ctx, path, variant, regions, outs, what):
    data = open(path, "rb").read()
    order = []
    for r in range(regions):
        writes, reads = {}, []
        for k, log in outs.items():
            for (t0, t1, reg, v, tok, new) in log:
                if reg != r:
                    continue
                ctx.count("sections")
                reads.append((t0, t1, v, tok, k))
                if new is not None:
                    if v in writes:
                        raise Odd("lost update: workers %d and %d both replaced version %d" % (writes[v][2], k, v))
                    writes[v] = (tok, new, k, t0, t1)
        token = 7 + r
        for v in range(len(writes)):
            if v not in writes:
                raise Odd("versions %s were replaced, not %d" % (sorted(writes)[:20], v))
            if writes[v][0] != token:
                raise Odd("worker %d replaced version %d of token %x, which is not the token %x written" % (writes[v][2], v, writes[v][0], token))
            token = writes[v][1]
        chain = [7 + r] + [writes[v][1] for v in range(len(writes))]
        for (t0, t1, v, tok, k) in reads:
            if v >= len(chain) or chain[v] != tok:
                raise Odd("worker %d read version %d of token %x, never written" % (k, v, tok))
        ev = sorted([(w[4], 0, v + 1) for v, w in writes.items()] + [(t0, 1, v, k) for (t0, t1, v, tok, k) in reads])
        best = 0
        for e in ev:
            if e[1] == 0:
                best = max(best, e[2])
            elif e[2] < best:
                raise Odd("worker %d read version %d of region %d after the section which wrote version %d was over" % (e[3], e[2], r, best))
        last = data[-REC:] if variant == "log" else data[r * REC:(r + 1) * REC]
        if parse_record(last) != (r if variant == "records" else 0, len(writes), token):
            raise Odd("the file ends with %.70r after version %d" % (last, len(writes)))
        order.append(tuple(writes[v][2] for v in range(len(writes)))[:20])
        ctx.count("handovers", sum(1 for a, b in zip(order[-1], order[-1][1:]) if a != b))
    if variant == "log":
        for i in range(len(data) // REC):
            if parse_record(data[i * REC:(i + 1) * REC])[1] != i:
                raise Odd("the %dth record of the log is %.70r" % (i, data[i * REC:(i + 1) * REC]))
    ctx.case(("race", what, tuple(order)), any(len(set(o)) > 1 for o in order), sample="%s: %s" % (what, order[0]))


def arrival(ctx, rs, remote):
    """A locking open waits while the holder works on the file; once granted, position, size and content are those the holder left."""
    rng = ctx.rng
    path = ctx.fresh("w")
    start = b"#" * rng.choice([0, 1, 30, 9000])
    with open(path, "wb") as f:
        f.write(start)
    holder = rng.choice(["remote", "local"])
    h = {"remote": remote, "local": Local(rs)}[holder]

    def hdo(cmd, *a):
        ok, r = h.do(cmd, "h", *a)
        if not ok:
            raise RuntimeError("the holder fails: %r" % (r,))
        return r
    std = rng.random() < 0.5
    mode = rng.choice(["a", "a+", "a+", "r+", "w", "r"] if std else ["A", "RA", "RAN", "RW", "RAE", "WE", "R"])
    text = rng.random() < 0.3
    full = mode + ("" if text else "b" if std else "B")
    append = "a" in mode.lower()
    erase = mode == "w" or "E" in mode
    writes = mode not in ("r", "R")
    kw = dict(buffering=-1 if text else rng.choice([0, -1, 16]), thread_safe=rng.random() < 0.5)
    if rng.random() < 0.5:
        kw["timeout"] = rng.choice([None, 30])
    what = "%s %s held %sly" % (full, kw, holder)
    hdo("open", path, "r+b", dict(buffering=rng.choice([0, -1, 16]), thread_safe=False, locking=False))
    hdo("call", "lock_file")
    rs.set_rsfile_options(default_spinlock_delay=0.003)
    got, errs = [], []

    def opener():
        try:
            got.append(rs.rsopen(path, full, **kw))
        except Exception as e:
            errs.append(repr(e))
    m = shim.mark()
    ino = os.stat(path).st_ino
    th = threading.Thread(target=opener)
    th.start()
    end = time.monotonic() + 5
    while time.monotonic() < end and th.is_alive() and not any(r.call == shim.OPEN and r.ino == ino and r.pid == os.getpid() for r in shim.records(m)):
        time.sleep(0.0005)
    time.sleep(rng.choice([0, 0.002, 0.01]))
    content = bytearray(start)
    for _ in range(rng.choice([1, 1, 3])):
        op = rng.choice(["add", "add", "add", "cut", "change"])
        if op == "add":
            d = b"%x" % rng.getrandbits(30) * rng.choice([1, 5, 2000])
            hdo("call", "seek", len(content))
            hdo("call", "write", d)
            content += d
        elif op == "cut":
            n = rng.choice([0, len(content) // 2])
            hdo("call", "truncate", n)
            del content[n:]
        elif content:
            hdo("call", "seek", 0)
            hdo("call", "write", b"%")
            content[:1] = b"%"
    if rng.random() < 0.5:
        hdo("call", "unlock_file")
    hdo("call", "close")
    th.join(30)
    rs.set_rsfile_options(default_spinlock_delay=0.1)
    if errs or not got:
        ctx.violation("arrival", "a blocked open is not granted: %s [%s]" % (errs, what))
        return
    s = got[0]
    if erase:
        content = bytearray()
    want = bytes(content)
    hist = []

    def check(ok, msg):
        if not ok:
            ctx.violation("arrival", "%s [%s; %d bytes when it was called, %d when granted]" % (msg, what, len(start), len(want)), history=hist)
        return ok
    ctx.count("arrivals")
    ctx.case(("arrival", full, holder, kw["buffering"], len(start) < len(want)), len(start) != len(want))
    try:
        t = s.tell()
        if not check(t == (len(want) if append else 0), "the initial position is %s" % t):
            return
        if not check(s.size() == len(want), "the size is %s" % s.size()):
            return
        if writes and append and rng.random() < 0.6:
            r = s.truncate()
            hist.append("truncate() -> %r" % r)
            s.flush()
            if not check(os.stat(path).st_size == len(want), "truncate() at the initial position of an append stream leaves %d bytes" % os.stat(path).st_size):
                return
        if writes:
            s.seek(0, 2)
            s.write("tail" if text else b"tail")
            s.flush()
            want += b"tail"
            if not check(s.tell() == len(want), "after a write at the end the position is %s" % s.tell()):
                return
        if s.readable():
            s.seek(0)
            r = s.read()
            r = r.encode() if text else r
            if kw["buffering"] == 0 and r != want:
                r += s.readall()
            check(r == want, "the content read is %.40r... (%d bytes)" % (r, len(r)))
        s.close()
        check(os.stat(path).st_size == len(want), "the final size is %d" % os.stat(path).st_size)
    finally:
        s.close()
        os.unlink(path)


STATEFUL = ["utf-7", "iso2022_jp", "hz", "utf-16", "utf-8-sig", "utf-8", "shift_jis", "ascii"]


def positions(ctx, rs):
    """A text stream moved to a position it gave before can be locked there, whatever it did in between."""
    rng = ctx.rng
    enc = rng.choice(STATEFUL)
    letters = "ab1 " if enc == "ascii" else "ab1 \u4e2d\u56fd\u65e5\u672c" if enc in ("hz",) else "ab1 \u65e5\u672c\u4e2d"
    text = "".join("".join(rng.choice(letters) for _ in range(rng.choice([0, 1, 3, 9, 30]))) + "\n" for _ in range(rng.choice([4, 12, 40])))
    path = ctx.fresh("pos")
    nl = rng.choice([None, "", "\n"])
    with open(path, "w", encoding=enc, newline=rng.choice(["", "\r\n", "\r"])) as f:
        f.write(text)
    mode = rng.choice(["r", "r+", "R", "RW"])
    size = rng.choice([-1, 16, 50])
    reads = [rng.choice([1, 2, 3, 7, 20]) for _ in range(5)]
    lines = [rng.randrange(0, 6) for _ in range(8)]

    def drive(f, lock):
        """Positions, then the rest of the text from each of them; whatever the reads did in between."""
        at, out, done = [(f.tell(), "")], [], ""
        for n in reads:
            done += f.read(n)
            at.append((f.tell(), done))
        for k in lines:
            pos, done = at[(k * 7 + len(out)) % len(at)]
            f.seek(0)
            it = iter(f)
            for _ in range(k):
                next(it, None)
            f.seek(pos)
            head = ""
            if lock is not None:
                lock(f, pos, k)
            out.append((done, head + f.read()))
        return out
    try:
        with _pyio.open(path, mode.replace("RW", "r+").lower(), encoding=enc, newline=nl, buffering=size) as f:
            want = drive(f, lambda f, pos, k: f.seek(f.tell()))
    except (OSError, ValueError, AssertionError):
        return  # _pyio computes wrong positions from some bytes per character ratios
    if any(a + b != want[0][0] + want[0][1] for a, b in want):
        return  # not a position the standard library can come back to
    held = []

    def lock(f, pos, k):
        ctx.count("positions_locked")
        ctx.case(("position", enc, mode, nl, k > 0, len(held) % 3), k > 0)
        w = len(held) % 3
        held.append(w)
        if w == 0:
            with f.lock_file(timeout=0):
                pass
        elif w == 1:
            f.lock_file(timeout=0)
            f.unlock_file()
        else:
            with f.lock_file(timeout=0, shared=True):
                if f.tell() != pos:
                    raise Odd("after locking, the position %d has become %d" % (pos, f.tell()))
    f = rs.rsopen(path, mode, encoding=enc, newline=nl, buffering=size, locking=False, thread_safe=rng.random() < 0.5)
    what = "text stream (%s, %s, newline=%r, buffering=%d)" % (mode, enc, nl, size)
    try:
        got = drive(f, lock)
        if got != want:
            ctx.violation("position", "%s: what follows its positions changes when it gets locked there" % what, reads=reads, lines=lines)
    except Odd as e:
        ctx.violation("position", "%s: %s" % (what, e), reads=reads, lines=lines)
    except (OSError, ValueError, RuntimeError) as e:
        ctx.violation("position", "%s: moved to a position it gave, then locked: %r" % (what, e), reads=reads, lines=lines, text=text)
    finally:
        f.close()


def run(ctx, i):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    remotes = [Remote(rs), Remote(rs)]
    local = Local(rs)
    k = 0
    try:
        while ctx.more(k, 40, 10 ** 9):
            if k % 2:
                positions(ctx, rs)
            if k % 8 == 7:
                race(ctx, rs)
            elif k % 8 == 3:
                arrival(ctx, rs, remotes[0])
            else:
                actors = ctx.rng.choice([[local], [local] + remotes[:1], [local] + remotes])
                History(ctx, rs, actors, None).run()
            if k % 20 == 19:
                shim.reset()
            k += 1
    finally:
        for r in remotes:
            r.stop()
