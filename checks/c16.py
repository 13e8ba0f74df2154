"""C16: what was written before sync() is on the device when it returns."""
import errno, fcntl, os, random, threading, time
from lib import vf, shim, linear

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the system calls of random write/sync histories (one or several threads, injected flush errors) are logged by a preloaded monitor, and an offline checker "
             "requires, for each sync() that returned, a successful fsync/fdatasync of the inode begun after the last write holding earlier data, and an up-to-date file")
NOTE = "The device itself is not observed: durability is judged from the order of the system calls and their results. Sampled histories."
RULE = ("one sync(); distinct by (layer, mode, arguments, fault, writes pending since the last flush, outcome, threads); non-trivial when data or a size change was not yet flushed to the device.")
BUDGET = {"quick": 10, "thorough": 150}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"syncs": 4000, "dirty_syncs": 2500, "failed_flushes": 400, "synchronized_writes": 500, "concurrent_syncs": 200, "helpers": 200}


def shards(tier, seed):
    return [("s%d" % i, {"i": i}) for i in range(8)]


class Odd(Exception):
    pass


class W:
    def __init__(self, ctx, rs):
        self.ctx, self.rs, self.rng = ctx, rs, ctx.rng
        self.log = []

    def fail(self, mech, msg):
        self.ctx.violation(mech, "%s [%s]" % (msg, self.what), history=self.log[-30:])
        raise Odd()

    def flushed(self, recs, metadata, what):
        """The log of one inode ends with a flush covering all its changes."""
        last = None
        for k, r in enumerate(recs):
            if r.call in (shim.WRITE, shim.FTRUNC) and r.ret >= 0 and not (r.call == shim.WRITE and r.ret == 0):
                last = k
        if last is None:
            return
        ok = [r for r in recs[last + 1:] if (r.call == shim.FSYNC or (r.call == shim.FDSYNC and not metadata)) and r.ret == 0 and r.t0 >= recs[last].t1]
        if not ok:
            anyf = [r for r in recs[last + 1:] if r.call in (shim.FSYNC, shim.FDSYNC)]
            self.fail("not-flushed" if not anyf else "weak-flush",
                      "%s returned, but no successful %s follows the last %s (seen: %s)" % (what, "fsync" if metadata else "fsync or fdatasync", shim.NAMES[recs[last].call], anyf))

    def one(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        kind = rng.choice(["raw", "buf", "buf", "text"])
        mode = rng.choice(["wb", "w+b", "r+b", "ab", "a+b", "WSB", "RWSB", "ASB", "RWB", "WSEB", "ab"])
        origin = rng.choice(["path", "path", "fileno", "opener"])
        if kind == "text":
            mode = mode.replace("b", "").replace("B", "")
        append = "a" in mode or "A" in mode
        sync_mode = "S" in mode
        p = ctx.fresh("s")
        with open(p, "wb") as f:
            f.write(b"start of the file")
        st = os.stat(p)
        mon = os.open(p, os.O_RDONLY)
        kw = dict(buffering={"raw": 0, "buf": rng.choice([16, 64, 8192, -1]), "text": rng.choice([16, -1])}[kind], locking=rng.random() < 0.5, thread_safe=rng.random() < 0.6)
        if kind == "text":
            kw["newline"] = ""
        if origin == "opener":
            kw["opener"] = os.open
        self.what = "%s %r %s from %s" % (kind, mode, kw["buffering"], origin)
        self.log = []
        if origin == "fileno":
            flags = os.O_RDWR | (os.O_APPEND if append else 0)
            s = rs.rsopen(None, mode, fileno=os.open(p, flags), **kw)
        else:
            s = rs.rsopen(p, mode, **kw)
        erased = origin != "fileno" and ("w" in mode or "E" in mode)
        content, pos = (b"" if erased else b"start of the file"), 0
        if append:
            pos = len(content)
        mark = shim.mark()
        try:
            if sync_mode and origin != "fileno":
                fl = fcntl.fcntl(s.fileno(), fcntl.F_GETFL)
                if fl & os.O_SYNC != os.O_SYNC:  # then each flushed write must be followed by a flush of the device
                    s.write("x" if kind == "text" else b"x")
                    s.flush()
                    self.flushed([r for r in shim.records(mark) if r.ino == st.st_ino and r.dev == st.st_dev], True, "flush() of a stream not opened with O_SYNC (flags %o)" % fl)
                    raise Odd()
                ctx.count("synchronized_opens")
            dirty = 0
            for _ in range(rng.choice([3, 6, 12])):
                r = rng.random()
                if r < 0.45:
                    d = b"%x;" % rng.getrandbits(32) * rng.choice([1, 1, 2, 10, 300])
                    s.write(d.decode() if kind == "text" else d)
                    if append:
                        pos = len(content)
                    content = content[:pos] + b"\0" * (pos - len(content)) + d + content[pos + len(d):]
                    pos += len(d)
                    dirty += 1
                    if sync_mode:
                        ctx.count("synchronized_writes")
                    self.log.append("write %d" % len(d))
                elif r < 0.55:
                    pos = rng.choice([0, len(content), rng.randrange(len(content) + 10)])
                    s.seek(pos)
                    self.log.append("seek %d" % pos)
                elif r < 0.65:
                    n = rng.randrange(len(content) + 30)
                    s.truncate(n)
                    content = (content + b"\0" * (n - len(content)))[:n]
                    dirty += 1
                    s.seek(0, 2)
                    pos = n
                    self.log.append("truncate %d" % n)
                elif r < 0.7:
                    s.flush()
                    self.log.append("flush")
                else:
                    self.sync(s, st, mon, mark, content, dirty, mode)
                    mark = shim.mark()
                    dirty = 0
            self.sync(s, st, mon, mark, content, dirty, mode)
        except Odd:
            pass
        finally:
            shim.clear_rules()
            s.close()
            os.close(mon)
            os.unlink(p)

    def sync(self, s, st, mon, mark, content, dirty, mode):
        ctx, rng = self.ctx, self.rng
        args = {}
        if rng.random() < 0.6:
            args["metadata"] = rng.random() < 0.5
        if rng.random() < 0.4:
            args["full_flush"] = rng.random() < 0.5
        fault = rng.choice([None] * 6 + ["fsync", "fdatasync", "both", "nofdatasync", "write", "fullfsync"])
        e = rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EBADF, errno.EROFS])
        rules = {}
        if fault in ("fsync", "both"):
            rules["fsync"] = shim.Rule(shim.FSYNC, shim.ERR, arg=e, count=-1, st=st)
        if fault in ("fdatasync", "both"):
            rules["fdatasync"] = shim.Rule(shim.FDSYNC, shim.ERR, arg=e, count=rng.choice([1, -1]), st=st)
        if fault == "nofdatasync":
            rules["none"] = shim.Rule(shim.FDSYNC, shim.ERR, arg=rng.choice([errno.EINVAL, errno.ENOSYS, errno.EOPNOTSUPP]), count=-1, st=st)
        if fault == "write":
            rules["write"] = shim.Rule(shim.WRITE, shim.ERR, arg=e, count=-1, st=st)
        if fault == "fullfsync":
            rules["fullfsync"] = shim.Rule(shim.FCNTL, shim.ERR, arg=errno.EIO, count=1, st=st)
        try:
            try:
                s.sync(**args)
                exc = None
            except OSError as x:
                exc = x
            hits = {k for k, r in rules.items() if r.hits()}
        finally:
            for r in rules.values():
                r.clear()
        self.log.append("sync %s fault %s hits %s -> %r" % (args, fault, hits, exc))
        ctx.count("syncs")
        if dirty:
            ctx.count("dirty_syncs")
        ctx.case((self.what, tuple(sorted(args.items())), fault, tuple(sorted(hits)), dirty > 0, exc and exc.errno), dirty > 0, sample="%s: %s" % (self.what, self.log[-3:]))
        bad = hits - {"none"}
        if bad:
            ctx.count("failed_flushes")
            if exc is None:
                self.fail("swallowed", "sync() returned although %s failed with errno %d" % (sorted(bad), e))
            s.sync()  # the cause is removed: nothing got lost meanwhile
        elif exc is not None:
            self.fail("spurious", "sync(%s) raises %r" % (args, exc))
        recs = [r for r in shim.records(mark) if r.ino == st.st_ino and r.dev == st.st_dev]
        self.flushed(recs, (not bad and args.get("metadata", True)) or bool(bad), "sync(%s)" % args)
        d = os.pread(mon, len(content) + 50, 0)
        if d != content:
            self.fail("content", "sync() returned with %d bytes %.60r on file instead of %d %.60r" % (len(d), d, len(content), content))

    def helpers(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        p = ctx.fresh("h")
        with open(p, "wb") as f:
            f.write(b"old")
        st = os.stat(p)
        which = rng.choice(["write", "append"])
        text = rng.random() < 0.5
        data = b"%x" % rng.getrandbits(64) * rng.choice([0, 1, 1, 100, 2000])
        buffering = rng.choice([None, 16]) if text else rng.choice([None, 0, 16])
        self.what = "%s_to_file sync text=%s buffering=%s" % (which, text, buffering)
        self.log = []
        mark = shim.mark()
        fault = rng.choice([None, None, errno.EIO, errno.ENOSPC])
        rule = fault and shim.Rule(shim.FSYNC, shim.ERR, arg=fault, count=-1, st=st)
        short = shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=-1, st=st) if rng.random() < 0.5 else None
        exc = None
        try:
            getattr(rs, which + "_to_file")(p, data.decode() if text else data, sync=True, buffering=buffering)
        except OSError as x:
            exc = x
        finally:
            shim.clear_rules()
        ctx.count("helpers")
        ctx.case(("helper", which, text, buffering, fault), True)
        try:
            if (exc is not None) != bool(fault):
                self.fail("swallowed" if fault else "spurious", "fsync fault %s, outcome %r" % (fault, exc))
            if not fault:
                recs = [r for r in shim.records(mark) if r.ino == st.st_ino and r.dev == st.st_dev]
                self.flushed(recs, True, self.what)
                if open(p, "rb").read() != (b"old" if which == "append" else b"") + data:
                    self.fail("content", "the content differs")
        except Odd:
            pass
        os.unlink(p)

    def threads(self):
        """Concurrent writers and syncers on one thread-safe stream in append mode."""
        ctx, rng, rs = self.ctx, self.rng, self.rs
        kind = rng.choice(["raw", "buf", "text"])
        p = ctx.fresh("t")
        s = rs.rsopen(p, "A" + ("" if kind == "text" else "B"), buffering=0 if kind == "raw" else rng.choice([16, 64, 4096]), locking=False)
        st = os.stat(p)
        self.what = "threads on %s" % kind
        self.log = []
        mark = shim.mark()
        done, syncs, errs = [], [], []

        def writer(k, r):
            try:
                for j in range(12):
                    t = b"<%d.%d>" % (k, j)
                    t += b"." * r.choice([0, 3, 30])
                    s.write(t.decode() if kind == "text" else t)
                    done.append((time.monotonic_ns(), t))
            except Exception as e:
                errs.append(e)

        def syncer(r):
            try:
                for j in range(6):
                    t0 = time.monotonic_ns()
                    s.sync(metadata=r.random() < 0.5)
                    syncs.append((t0, time.monotonic_ns()))
                    time.sleep(r.random() / 3000)
            except Exception as e:
                errs.append(e)
        ths = [threading.Thread(target=writer, args=(k, random.Random(rng.random()))) for k in range(3)] + [threading.Thread(target=syncer, args=(random.Random(rng.random()),)) for _ in range(2)]
        shim.perturb(rng.getrandbits(40), 300, 150)
        with linear.jitter(ctx, rng):
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        shim.perturb(1, 0, 0)
        s.close()
        recs = [r for r in shim.records(mark) if r.ino == st.st_ino and r.dev == st.st_dev]
        data = open(p, "rb").read()
        os.unlink(p)
        try:
            if errs:
                self.fail("thread-error", "%r in a thread" % errs[0])
            writes, total = [], 0
            for r in recs:
                if r.call == shim.WRITE and r.ret > 0:
                    total += r.ret
                    writes.append((total, r))
            flushes = [r for r in recs if r.call in (shim.FSYNC, shim.FDSYNC) and r.ret == 0]
            if total != len(data):
                raise vf.Inconclusive("the log has %d bytes written, the file %d" % (total, len(data)))
            for t0, t1 in syncs:
                ctx.count("concurrent_syncs")
                need = 0
                for t, tok in done:
                    if t < t0:
                        k = data.find(tok)
                        if k < 0:
                            self.fail("thread-lost", "token %r is not on file" % tok)
                        need = max(need, k + len(tok))
                if not need:
                    continue
                w = next(r for total, r in writes if total >= need)
                if not any(f.t0 >= w.t1 and f.t1 <= t1 for f in flushes):
                    self.fail("thread-not-flushed", "a sync() returned, whereas no flush of the device lies between the write of data handed over before it and its return")
                ctx.case((self.what, "threads", len(writes), need), True)
        except Odd:
            pass


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    w = W(ctx, rs)
    n = 0
    while ctx.more(n, 100, 10 ** 6):
        ctx.crumb("case %d" % n)
        shim.reset()
        k = n % 10
        if k < 7:
            w.one()
        elif k < 9:
            w.helpers()
        else:
            w.threads()
        n += 1
