"""C15: faults of the system never lose data silently."""
import errno, gc, io, os, subprocess, sys, warnings
from lib import vf, shim, locks
from checks.c13 import fds

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring with fault injection: a preloaded monitor shortens, interrupts or fails the system calls of random operation sequences, and an oracle keeps the set of "
             "contents and positions compatible with what was reported to the caller, compared with the file after every successful flush or close")
NOTE = ("Sampled sequences and faults, one thread. After a failed read the position is taken as unknown until the next absolute seek; a write refused by an exception may have been wholly "
        "accepted by the buffer or not at all.")
RULE = ("one faulted operation; distinct by (stream kind, mode, buffer size class, operation, faulted call, kind of fault, outcome, candidates left); non-trivial when a fault really was injected.")
BUDGET = {"quick": 11, "thorough": 200}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"faulted": 4000, "compared": 5000, "raised": 1500, "close_errors": 200, "short_writes": 800, "short_reads": 500, "helpers": 200, "dropped": 150, "exits": 16, "unlockings": 200}


def shards(tier, seed):
    return [("f%d" % i, {"i": i}) for i in range(8)]


class Odd(Exception):
    pass


class Case:
    def __init__(self, ctx, rs, prober):
        self.ctx, self.rs, self.rng, self.prober = ctx, rs, ctx.rng, prober
        self.tok = 0
        self.log = []

    def fail(self, mech, msg):
        self.ctx.violation(mech, "%s [%s]" % (msg, self.what), history=self.log[-40:])
        raise Odd()

    def token(self):
        self.tok += 1
        n = self.rng.choice([1, 3, 8, 8, 20, 50, 200])
        return ((b"<%x>" % self.tok) * 60)[:n] if n > 3 else (b"%x" % self.tok)[-n:]

    def rules(self):
        """Random faults for the next operation."""
        rng = self.rng
        out = []
        r = rng.random()
        if self.short:
            out.append(("short-w", shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=-1, st=self.st)))
        if r < 0.35:
            return out
        kind = rng.choice(["short-w1", "short-w", "err-w", "err-w", "err-w", "eintr-w", "short-r1", "short-r", "err-r", "err-r", "eintr-r", "err-seek", "err-trunc", "err-stat", "mix"])
        skip, cnt = rng.choice([0, 0, 0, 1, 2]), rng.choice([1, 1, 2, -1])
        e = rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG])
        if kind == "short-w1":
            out.insert(0, (kind, shim.Rule(shim.WRITE, shim.SHORT, arg=rng.choice([1, 1, 7]), count=-1, st=self.st)))
        elif kind == "short-w":
            out.insert(0, (kind, shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=-1, st=self.st)))
        elif kind in ("err-w", "mix"):
            if kind == "mix":  # first a short write, then an error
                for _, x in out:
                    x.clear()
                out = [("short-w", shim.Rule(shim.WRITE, shim.SHORT, arg=rng.choice([1, 3, 9]), count=1, st=self.st))]
                skip, cnt = 0, rng.choice([1, -1])
            else:
                for _, x in out:
                    x.clear()
                out = []
            out.append((kind, shim.Rule(shim.WRITE, shim.ERR, arg=e, skip=skip, count=cnt, st=self.st)))
        elif kind == "eintr-w":
            for _, x in out:
                x.clear()
            out = [(kind, shim.Rule(shim.WRITE, shim.ERR, arg=errno.EINTR, skip=skip, count=rng.choice([1, 3]), st=self.st))]
        elif kind == "short-r1":
            out.append((kind, shim.Rule(shim.READ, shim.SHORT, arg=rng.choice([1, 2, 5]), count=-1, st=self.st)))
        elif kind == "short-r":
            out.append((kind, shim.Rule(shim.READ, shim.SHORT_RANDOM, count=-1, st=self.st)))
        elif kind == "err-r":
            out.append((kind, shim.Rule(shim.READ, shim.ERR, arg=errno.EIO, skip=skip, count=cnt, st=self.st)))
        elif kind == "eintr-r":
            out.append((kind, shim.Rule(shim.READ, shim.ERR, arg=errno.EINTR, skip=skip, count=rng.choice([1, 3]), st=self.st)))
        elif kind == "err-seek":
            out.append((kind, shim.Rule(shim.LSEEK, shim.ERR, arg=errno.EIO, skip=skip, count=cnt, st=self.st)))
        elif kind == "err-trunc":
            out.append((kind, shim.Rule(shim.FTRUNC, shim.ERR, arg=e, count=cnt, st=self.st)))
        elif kind == "err-stat":
            out.append((kind, shim.Rule(shim.FSTAT, shim.ERR, arg=errno.EIO, skip=skip, count=cnt, st=self.st)))
        return out

    def disk(self):
        size = os.fstat(self.mon).st_size
        return os.pread(self.mon, size + 10, 0)

    # --- candidates: set of (content, pos); pos None = unknown
    def put(self, c, data):
        content, pos = c
        if self.append:
            return (content + data, None)
        if len(content) < pos:
            content = content + b"\0" * (pos - len(content))
        return (content[:pos] + data + content[pos + len(data):], pos + len(data))

    def keep(self, op, new, got):
        if not new:
            self.fail("result:%s" % op, "%s gives %.200r, which no history of what was reported explains (%d candidates, first: %.300r)" % (op, got, len(self.cands), sorted(self.cands, key=repr)[:1]))
        self.cands = new

    def compare(self, op):
        d = self.disk()
        self.ctx.count("compared")
        new = {c for c in self.cands if c[0] == d}
        if not new:
            want = sorted(c[0] for c in self.cands)[0]
            self.fail("content", "after a successful %s the file contains %.150r (%d bytes) instead of %.150r (%d bytes)" % (op, d, len(d), want, len(want)))
        self.cands = new

    def one(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        kind = rng.choice(["raw", "buf", "buf", "text"])
        mode = rng.choice(["w+b", "r+b", "wb", "ab", "a+b", "rb", "WEB", "RWB", "r+b"])
        if kind == "text":
            mode = mode.replace("b", "").replace("B", "")
        self.readable = any(c in mode for c in "r+R")
        self.writable = any(c in mode for c in "wa+WA")
        self.append = "a" in mode or "A" in mode
        size = 0 if kind == "raw" else rng.choice([8, 16, 64, 8192])
        p = self.p = ctx.fresh("d")
        start = (b"0123456789abcdef\n" * 20)[:rng.choice([0, 5, 40, 300])]
        fd = os.open(p, os.O_CREAT | os.O_RDWR, 0o644)
        os.write(fd, start)
        self.mon = fd
        self.st = os.fstat(fd)
        self.short = rng.random() < 0.2
        locking = rng.random() < 0.6
        kw = dict(locking=locking, buffering=size, thread_safe=rng.random() < 0.5)
        if locking:
            kw["timeout"] = 0
        if kind == "text":
            kw["newline"] = rng.choice(["", "\n"])
            kw["encoding"] = "utf-8"
        self.what = "%s %r buffering %d%s" % (kind, mode, size, " locked" if locking else "")
        self.log = []
        s = rs.rsopen(p, mode, **kw)
        erased = mode[0] == "w" or "E" in mode
        content = b"" if erased else start
        self.cands = {(content, len(content) if self.append else 0)}
        self.s, self.kind, self.size, self.mode = s, kind, size, mode
        self.lastread = False
        self.held, self.mgr = locking, None
        del s
        try:
            for _ in range(rng.choice([4, 8, 16, 30])):
                self.step()
                if len(self.cands) > 60:
                    self.quiet_flush()
            self.mgr = None
            self.finish(locking)
        except Odd:
            try:
                self.s.close()
            except Exception:
                pass
        finally:
            self.s = self.mgr = None
            shim.clear_rules()
            os.close(self.mon)
            os.unlink(p)

    def quiet_flush(self):
        self.s.flush()
        self.compare("flush")

    def unknown(self):
        return any(c[1] is None for c in self.cands)

    def step(self):
        rng, ctx, s = self.rng, self.ctx, self.s
        ops = []
        if self.unknown():
            ops += ["seek", "seek"]
            if self.append and not (self.kind == "text" and self.lastread):
                ops += ["write"] * 3
            ops += ["flush", "size"]
        else:
            ops += ["seek", "seek", "tell", "flush", "size"]
            if self.writable and not (self.kind == "text" and self.lastread):
                ops += ["write"] * 6 + ["truncate", "truncate-n"]
            if self.readable:
                ops += ["read", "read-n", "read-n", "readline", "readinto", "readall"]
        if rng.random() < 0.12:
            ops = ["unlock"] if self.held else ["lock"]
        op = rng.choice(ops)
        if self.kind == "text" and op in ("read", "read-n", "readline", "readall", "readinto") and self.wrote:
            op = "seek"  # the standard text streams need it between writing and reading
        rules = self.rules()
        before = set(self.cands)
        args, data = (), None
        try:
            if op == "write":
                data = self.token()
                if self.kind == "buf" and rng.random() < 0.15:
                    parts = self.parts = [data, self.token(), self.token()]
                    op, data = "writelines", b"".join(parts)
                    call = lambda: s.writelines(parts)
                else:
                    call = lambda: s.write(data.decode() if self.kind == "text" else rng.choice([data, bytearray(data), memoryview(data)]))
            elif op == "seek":
                biggest = max(len(c[0]) for c in self.cands)
                w = 0 if self.unknown() or self.kind == "text" else rng.choice([0, 0, 1, 2])
                if self.kind == "text":
                    args = rng.choice([(0,), (0, 2), (rng.randrange(biggest + 1),)])
                elif w == 0:
                    args = (rng.randrange(biggest + 20),)
                elif w == 1:
                    args = (rng.choice([0, 0, 1, 5, 30]), 1)
                else:
                    args = (rng.choice([0, 0, 3]), 2)
                call = lambda: s.seek(*args)
            elif op == "truncate-n":
                args = (rng.randrange(max(len(c[0]) for c in self.cands) + 30),)
                call = lambda: s.truncate(*args)
            elif op == "read-n":
                args = (rng.choice([1, 2, 7, 16, 40, 500]),)
                call = lambda: s.read(*args)
            elif op == "readinto":
                if self.kind == "text":
                    op, call = "read", lambda: s.read()
                else:
                    b = bytearray(rng.choice([1, 5, 20, 100]))
                    call = lambda: bytes(b[:s.readinto(b)])
            elif op == "lock":
                def call():
                    self.mgr = s.lock_file(timeout=0)
            elif op == "unlock":
                mgr, self.mgr = self.mgr, None
                if mgr is not None and rng.random() < 0.7:
                    def call():
                        with mgr:
                            pass
                else:
                    mgr, call = None, s.unlock_file
            elif op == "readall":
                op = "read"
                call = lambda: s.read(-1)
            else:
                call = getattr(s, op)
            self.log.append("%s%r %s %s" % (op, args, data and len(data), [k for k, _ in rules]))
            try:
                res, exc = call(), None
            except (OSError, ValueError) as e:
                res, exc = None, e
                e.__traceback__ = e.__context__ = None  # no reference to the stream may stay
            hits = [k for k, r in rules if r.hits()]
        finally:
            for _, r in rules:
                r.clear()
        self.log.append("   -> %.60r %r hits %s" % (res, exc, hits))
        if hits:
            ctx.count("faulted")
            for k in hits:
                ctx.count({"s": "short_writes" if "-w" in k else "short_reads"}.get(k[0], "errors"))
        hard = [k for k in hits if k.startswith("err") or k == "mix"]
        if exc is not None and (not hard or not isinstance(exc, OSError)):
            self.fail("spurious:%s" % op, "%s raises %r although nothing failed (injected: %s)" % (op, exc, hits))
        if exc is not None:
            ctx.count("raised")
        self.apply(op, args, data, res, exc, before)
        if exc is not None and op in ("lock", "unlock"):
            self.held, self.mgr = False, None
            try:
                s.unlock_file()  # it may have been done or not
            except RuntimeError:
                pass
        ctx.case((self.kind, self.mode, min(self.size, 65), op, tuple(hits), exc and exc.errno, len(self.cands)), bool(hits), sample="%s: %s" % (self.what, self.log[-2:]))

    wrote = False

    def apply(self, op, args, data, res, exc, before):
        C = self.cands
        if op in ("write", "writelines"):
            self.wrote = True
            if exc is not None:
                if self.kind == "raw":
                    return
                if op == "writelines":
                    self.cands = C | {self.put(c, data) for c in C}
                    # one of the items was refused: those before it were accepted
                    for k in (1, 2):
                        self.cands |= {self.put(c, b"".join(self.parts[:k])) for c in C}
                    return
                self.cands = C | {self.put(c, data) for c in C}
                return
            if self.kind == "raw":
                if not isinstance(res, int) or not 0 < res <= len(data):
                    self.fail("count", "raw write of %d bytes returns %r" % (len(data), res))
                data = data[:res]
            elif op == "write" and res != len(data):
                self.fail("count", "write of %d bytes returns %r" % (len(data), res))
            self.cands = {self.put(c, data) for c in C}
            if self.kind == "raw":
                self.compare("raw write")
        elif op == "seek":
            if exc is not None:
                return
            self.wrote = False
            self.lastread = False
            w = args[1] if len(args) > 1 else 0
            new = {(c[0], args[0] if w == 0 else (c[1] or 0) + args[0] if w == 1 else len(c[0]) + args[0]) for c in C}
            self.keep(op, {c for c in new if c[1] == res}, res)
            if self.kind != "raw" and self.writable:
                self.compare("seek")
        elif op == "tell":
            if exc is None:
                self.keep(op, {c for c in C if c[1] == res}, res)
        elif op == "flush":
            if exc is None:
                self.compare("flush")
        elif op == "lock":
            self.held = True
        elif op == "unlock":
            self.held = False
            self.ctx.count("unlockings")
            if exc is None:
                self.compare("unlocking")
        elif op == "size":
            if exc is None:
                self.keep(op, {c for c in C if len(c[0]) == res}, res)
                self.compare("size")
        elif op in ("truncate", "truncate-n"):
            def cut(c):
                n = args[0] if args else c[1]
                return ((c[0] + b"\0" * (n - len(c[0])))[:n], c[1])
            if exc is not None:
                self.cands = C | {cut(c) for c in C}
            else:
                new = {cut(c) for c in C}
                self.keep(op, {c for c in new if len(c[0]) == res}, res)
                self.compare("truncate")
        elif op in ("read", "read-n", "readline", "readinto"):
            self.lastread = True
            if exc is not None:
                self.cands = {(c[0], None) for c in C}
                return
            got = res.encode() if isinstance(res, str) else res
            new = set()
            for (content, pos) in C:
                rest = content[pos:]
                n = args[0] if args else None
                full = rest if op == "read" else rest[:n] if op == "read-n" else rest[:rest.find(b"\n") + 1 or len(rest)]
                if op == "readinto":
                    ok = rest.startswith(got) and (got or not rest) if self.kind == "raw" else got == rest[:len(got)] and (len(got) or not rest)
                elif self.kind == "raw" and op == "read-n":
                    ok = full.startswith(got) and (got or not full)
                else:
                    ok = got == full
                if ok:
                    new.add((content, pos + len(got)))
            self.keep(op, new, res)

    def finish(self, locking):
        """Close, possibly with errors."""
        ctx, rng = self.ctx, self.rng
        rules = []
        kind = rng.choice(["none", "none", "close", "close", "write", "fstat", "write+close", "short"])
        if "close" in kind:
            rules.append(("close", shim.Rule(shim.CLOSE, shim.ERR_AFTER, arg=rng.choice([errno.EIO, errno.ENOSPC, errno.EINTR]), count=1, st=self.st)))
        if "write" in kind:
            rules.append(("write", shim.Rule(shim.WRITE, shim.ERR, arg=rng.choice([errno.EIO, errno.ENOSPC]), count=-1, st=self.st)))
        if kind == "fstat":
            rules.append(("fstat", shim.Rule(shim.FSTAT, shim.ERR, arg=errno.EIO, count=-1, st=self.st)))
        if kind == "short":
            rules.append(("short", shim.Rule(shim.WRITE, shim.SHORT, arg=1, count=-1, st=self.st)))
        fd = self.s.fileno()
        how = rng.choice(["close", "with", "drop"])
        if how == "drop":
            return self.dropped(rules, kind, fd)
        s, exc = self.s, None
        self.log.append("close (%s) %s" % (how, kind))
        try:
            try:
                if how == "close":
                    s.close()
                else:
                    with s:
                        pass
            except (OSError, ValueError) as e:
                exc = e
            hits = {k: r.hits() for k, r in rules}
        finally:
            for _, r in rules:
                r.clear()
        self.log.append("   -> %r hits %s" % (exc, hits))
        if hits:
            ctx.count("close_errors" if any(hits.values()) else "close_quiet")
        if exc is None and (hits.get("write") or hits.get("close")):
            self.fail("close-silent", "close() says nothing, whereas a system call failed (%s)" % hits)
        if exc is not None and not any(v for k, v in hits.items() if k != "short"):
            self.fail("spurious:close", "close() raises %r although nothing failed" % exc)
        if not hits.get("write") and not hits.get("fstat"):
            self.compare("close")
        ctx.case((self.kind, self.mode, "close", how, kind, exc and getattr(exc, "errno", 0), locking), bool(hits))
        try:
            st = os.fstat(fd)
            still = (st.st_dev, st.st_ino) == (self.st.st_dev, self.st.st_ino) and fd != self.mon
        except OSError:
            still = False
        if still:
            os.close(fd)
            self.fail("close-fd", "after close() (%r) the descriptor is still open" % exc)
        if not s.closed:
            self.fail("close-state", "after close() (%r) the stream is not closed" % exc)
        anyl, exl, pids = self.prober.scan(self.p)
        if anyl:
            self.fail("close-lock", "after close() (%r) locks are still held: %s" % (exc, anyl))
        s.close()

    def dropped(self, rules, kind, fd):
        """The stream is forgotten without close(): its data gets written all the same, and what it held is released."""
        ctx, p = self.ctx, self.p
        self.log.append("dropped %s" % kind)
        closed = self.s.closed
        self.s = None
        gc.collect()
        hits = {k: r.hits() for k, r in rules}
        for _, r in rules:
            r.clear()
        ctx.count("dropped")
        try:
            st = os.fstat(fd)
            still = (st.st_dev, st.st_ino) == (self.st.st_dev, self.st.st_ino) and fd != self.mon
        except OSError:
            still = False
        if still:
            self.fail("dropped-fd", "a stream dropped without close() leaves its descriptor open")
        if not hits.get("write") and not hits.get("fstat") and not closed:
            self.compare("being dropped")
        anyl, exl, pids = self.prober.scan(p)
        if anyl:
            self.fail("dropped-lock", "a stream dropped without close() leaves locks %s" % anyl)
        ctx.case((self.kind, self.mode, "dropped", kind, tuple(hits.items())), True)

    def exits(self):
        """A program ends with streams still open: what it wrote is on file."""
        ctx, rng = self.ctx, self.rng
        how = rng.choice(["end", "exit", "exception", "local", "thread", "global"])
        files, code = [], ["import sys, threading", "sys.path.insert(0, %r)" % vf.SRC, "import rsfile", "keep = []", "def work(ref):"]
        for k in range(rng.randrange(1, 4)):
            p = ctx.fresh("e")
            start = b"0123456789" * rng.choice([0, 3])
            with open(p, "wb") as f:
                f.write(start)
            mode = rng.choice(["w", "wb", "a", "ab", "r+", "r+b", "w+b", "RWNB", "AB", "WNE"])
            text = "b" not in mode.lower()
            kw = dict(buffering=rng.choice([-1, 16, 64, 8192] + ([] if text else [0])), thread_safe=rng.random() < 0.5, locking=rng.random() < 0.5)
            model = b"" if "w" in mode or "E" in mode else start
            data = []
            for _ in range(rng.randrange(1, 5)):
                data.append(self.token())
            new = b"".join(data)
            model = model + new if mode[0] in "aA" else new + model[len(new):]
            code.append("    s = rsfile.rsopen(%r, %r, **%r)" % (p, mode, kw))
            for d in data:
                code.append("    s.write(%r)" % (d.decode() if text else d))
            code.append("    ref.append(s)")
            files.append((p, mode, kw, model))
        code += {"end": ["work(keep)"], "exit": ["work(keep)", "sys.exit(3)"], "exception": ["work(keep)", "raise KeyError(1)"], "local": ["work([])"], "global": ["work(keep)", "one = keep[0]; keep = None"],
                 "thread": ["t = threading.Thread(target=work, args=(keep,)); t.start()"]}[how]
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "\n".join(code)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, cwd=ctx.dir)
        ctx.count("exits")
        if r.returncode != {"exit": 3, "exception": 1}.get(how, 0):
            ctx.violation("exit-status", "a program which ends (%s) with open streams has status %d: %s" % (how, r.returncode, r.stderr[-300:]))
        for (p, mode, kw, model) in files:
            with open(p, "rb") as f:
                got = f.read()
            ctx.case(("exit", how, mode, kw["buffering"], kw["thread_safe"]), True)
            if got != model:
                ctx.violation("exit-lost", "a program which ends (%s) with an open stream, %r %r, leaves %d bytes on file instead of %d" % (how, mode, kw, len(got), len(model)), stderr=r.stderr.decode()[-500:])
            os.unlink(p)

    def helpers(self):
        """Whole-file helpers, which must complete short transfers or raise."""
        ctx, rng, rs = self.ctx, self.rng, self.rs
        p = ctx.fresh("h")
        old = self.token() * 3
        fd = self.mon = os.open(p, os.O_CREAT | os.O_RDWR, 0o644)
        os.write(fd, old)
        self.st = os.fstat(fd)
        self.short = rng.random() < 0.5
        data = b"".join(self.token() for _ in range(rng.choice([1, 5, 30])))
        text = rng.random() < 0.4
        which = rng.choice(["write", "append", "read"])
        kw = {"buffering": rng.choice([None, 16]) if text else rng.choice([None, 0, 0, 16])}
        if which != "read" and rng.random() < 0.3:
            kw["sync"] = True
        self.what = "%s_file %s %d bytes %s" % (which, "text" if text else "binary", len(data), kw)
        self.log = []
        rules = self.rules()
        before = fds()
        arg = data.decode() if text else rng.choice([data, bytearray(data), memoryview(data)])
        try:
            try:
                if which == "write":
                    res, exc = rs.write_to_file(p, arg, **kw), None
                elif which == "append":
                    res, exc = rs.append_to_file(p, arg, **kw), None
                else:
                    res, exc = rs.read_from_file(p, binary=not text, **kw), None
            except (OSError, ValueError) as e:
                res, exc = None, e
            hits = [k for k, r in rules if r.hits()]
        finally:
            for _, r in rules:
                r.clear()
        try:
            if exc is not None:
                exc.__traceback__ = None
                exc.__context__ = None
            hard = [k for k in hits if k.startswith("err") or k == "mix"]
            ctx.count("helpers")
            ctx.case(("helper", which, text, kw.get("buffering"), tuple(hits), exc and exc.errno), bool(hits))
            if exc is not None and not hard:
                self.fail("spurious:helper", "raises %r although nothing failed (%s)" % (exc, hits))
            d = self.disk()
            full = data if which == "write" else old + data if which == "append" else old
            if exc is None and d != full:
                self.fail("helper", "the file contains %d bytes instead of %d (injected %s)" % (len(d), len(full), hits))
            if exc is None and which == "read" and (res.encode() if text else res) != old:
                self.fail("helper", "reading returns %.100r" % res)
            if exc is not None and which == "append" and not (d.startswith(old) and (old + data).startswith(d)):
                self.fail("helper", "a failed append leaves %.200r" % d)
            if exc is not None and which == "write" and not (d in (old,) or data.startswith(d)):
                self.fail("helper", "a failed write leaves %.200r" % d)
            if fds() != before:
                self.fail("helper-fd", "a helper leaves descriptors (%r)" % exc)
            anyl, exl, pids = self.prober.scan(p)
            if anyl:
                self.fail("helper-lock", "a helper leaves locks (%r)" % exc)
        except Odd:
            pass
        os.close(fd)
        os.unlink(p)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    prober = locks.Helper()
    sys.unraisablehook = lambda _: None  # errors met while streams are finalized
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    c = Case(ctx, rs, prober)
    n = 0
    while ctx.more(n, 160, 10 ** 6):
        ctx.crumb("case %d" % n)
        c.wrote = False
        if n % 100 == 50:
            c.exits()
        elif n % 6 == 5:
            c.helpers()
        else:
            c.one()
        n += 1
    prober.stop()
