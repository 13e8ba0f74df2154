"""C14: conservation of descriptors."""
import errno, gc, io, os, random, stat, threading, time
from lib import vf, shim, linear, locks, lockwork
from lib.lockwork import Bench, rand_range
from lib.locks import INF, cut

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the descriptor table of the process is compared after every step of random histories with a model (live, due later, foreign to rsfile), every close() "
             "on a dead descriptor is logged by a preloaded monitor, and canary descriptors are watched during multi-threaded stress")
NOTE = "Held on the histories explored; the number of a descriptor kept for later is observed, its lifetime is predicted."
RULE = ("random histories of opening (every wrapping form), locking, unlocking, closing (close, with, collection, detach, twice) streams on 1-3 files (some deleted meanwhile); a state is the "
        "multiset of live, pending and lock counts per file, non-trivial when a descriptor is kept for later or wrapped with closefd=False.")
BUDGET = {"quick": 11, "thorough": 200}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"tables": 4000, "pending": 300, "drained": 150, "closed_ops": 3000, "zero": 100, "stress_opens": 500, "nocloses": 60, "growths": 8}


def shards(tier, seed):
    return [("h%d" % i, {"i": i}) for i in range(8)]


def table():
    out = {}
    d = os.open("/proc/self/fd", os.O_RDONLY | os.O_DIRECTORY)
    try:
        for n in os.listdir(d):
            if int(n) != d:
                try:
                    st = os.fstat(int(n))
                    out[int(n)] = (st.st_dev, st.st_ino, st.st_rdev, stat.S_IFMT(st.st_mode))
                except OSError:
                    pass
    finally:
        os.close(d)
    return out


OPS = [("read", ()), ("read", (3,)), ("readline", ()), ("readlines", ()), ("readinto", (bytearray(3),)), ("write", ("x",)), ("writelines", (["x"],)), ("seek", (0,)), ("seek", (0, 2)),
       ("tell", ()), ("truncate", ()), ("truncate", (3,)), ("flush", ()), ("size", ()), ("times", ()), ("unique_id", ()), ("uid", ()), ("sync", ()), ("lock_file", ()),
       ("lock_file", (0, 3)), ("unlock_file", ()), ("fileno", ()), ("handle", ()), ("isatty", ()), ("__enter__", ()), ("__next__", ()),
       ("peek", ()), ("read1", (3,)), ("readall", ())]


class Hist:
    def __init__(self, ctx, rs, prober, foreign, nfiles, base):
        self.ctx, self.rng, self.base, self.rs = ctx, ctx.rng, base, rs
        b = self.b = Bench(ctx, rs, prober, foreign, nfiles=nfiles)
        b.keep = []
        self.wrong = 0

        def adopt(what, expect, out, val):
            self.wrong += 1
        b.on_bad = adopt
        self.pending = {i: set() for i in range(nfiles)}
        self.ino = {}
        for i, names in enumerate(b.files):
            st = os.stat(names[0])
            self.ino[(st.st_dev, st.st_ino)] = i
        self.mark = shim.mark()

    def held(self, fi):
        return any(h.locks for h in self.b.handles if h.file == fi)

    def due(self, fi):
        """The process holds no lock on the file anymore: nothing may be kept."""
        if not self.held(fi) and self.pending[fi]:
            self.ctx.count("drained")
            self.pending[fi].clear()

    def fail(self, mech, msg):
        self.ctx.violation(mech, msg, history=self.b.log[-60:])
        return False

    def check(self, unknown=None):
        """unknown: file whose refused open may have left one descriptor to keep, of unknown number."""
        ctx, b = self.ctx, self.b
        got = table()
        ctx.count("tables")
        mine = {fd: self.ino[k[:2]] for fd, k in got.items() if k[:2] in self.ino}
        want = {h.fd: h.file for h in b.handles}
        for fi, s in self.pending.items():
            for fd in s:
                want[fd] = fi
        for fd in b.keep:
            want[fd] = None
        for fd in want:
            if want[fd] is None:
                want[fd] = mine.get(fd)
        if unknown is not None:
            new = [fd for fd in mine if fd not in want and mine[fd] == unknown]
            if self.held(unknown):
                if len(new) != 1:
                    return self.fail("lost" if not new else "leak", "a refused open, on a file locked by the process, leaves %d descriptors" % len(new))
                self.pending[unknown].add(new[0])
                want[new[0]] = unknown
                ctx.count("pending")
        extra = sorted(set(mine) - set(want))
        lost = sorted(fd for fd in want if mine.get(fd, -1) != want[fd])
        if extra:
            return self.fail("leak", "descriptors %s of the files are still open, whereas no live stream uses them and the process holds no lock which justifies it" % extra)
        if lost:
            who = ["keep" if fd in b.keep else "live" if any(h.fd == fd for h in b.handles) else "pending" for fd in lost]
            return self.fail("lost:%s" % who[0], "descriptors closed too early or replaced: %s" % list(zip(lost, who)))
        others = {fd: k for fd, k in got.items() if k[:2] not in self.ino}
        if others != self.base:
            return self.fail("foreign", "descriptors of others changed: %s instead of %s" % (others, self.base))
        bad = [r for r in shim.records(self.mark) if r.call == shim.CLOSE and r.err == errno.EBADF]
        self.mark = shim.mark()
        if bad:
            return self.fail("twice", "close() called on descriptor %d, which is not open" % bad[0].fd)
        nocl = sum(1 for h in b.handles if h.userfd is not None and not h.closefd)
        npend = sum(len(s) for s in self.pending.values())
        ctx.case((tuple(sorted((h.file, len(h.locks), h.closefd) for h in b.handles)), tuple(len(s) for s in self.pending.values())), npend or nocl, sample=b.log[-10:])
        return True

    def step(self):
        b, rng, ctx = self.b, self.rng, self.ctx
        hs = b.handles
        r = rng.random()
        if not hs or (r < 0.27 and len(hs) < self.maxh):
            fi = rng.randrange(len(b.files))
            n = len(hs)
            h = b.open(fi=fi, closefd=rng.random() < 0.75)
            if h is None:
                self.due(fi)
                return self.check(unknown=fi if b.refused_owned else None)
            h.fd = h.stream.fileno()
            if h.fd == 0:
                ctx.count("zero")
            return self.check()
        if r < 0.5:
            h = rng.choice(hs)
            b.lock(h, timeout=0)
            self.due(h.file)
            return self.check()
        if r < 0.68:
            cand = [(h, k) for h in hs for k in h.locks]
            if cand:
                h, k = rng.choice(cand)
                b.unlock(h, k[1], None if k[2] == INF else k[2] - k[1])
                self.due(h.file)
                return self.check()
            return True
        if r < 0.72:
            fi = rng.randrange(len(b.files))
            s, ln = rand_range(rng)
            b.foreign_lock(fi, rng.random() < 0.5, cut(s, ln))
            return True
        if r < 0.75:
            b.foreign_unlock(rng.randrange(len(b.files)))
            return True
        return self.close(rng.choice(hs))

    def close(self, h):
        b, rng, ctx = self.b, self.rng, self.ctx
        st = h.stream
        how = rng.choice(["close", "with", "gc", "twice", "buffer", "del-exc", "detach", "reopen0"])
        owns = h.userfd is None or h.closefd
        fi = h.file
        if not owns:
            ctx.count("nocloses")
        inner = getattr(st, "wrapped_stream", st)
        if how == "detach" and h.buffered:
            low = inner.detach()
            if hasattr(low, "detach") and rng.random() < 0.5:
                low = low.detach()
            b.note("detach h%d then close %r" % (h.id, low))
            del inner, st
            h.stream = None
            b.handles.remove(h)
            if rng.random() < 0.5:
                low.close()
            else:
                del low
                gc.collect()
            ctx.count("detached")
        elif how in ("gc", "del-exc"):
            del inner, st
            b.close(h, how=how)
        else:
            b.close(h, how="close" if how in ("detach", "reopen0") else how)
            for s in {id(x): x for x in (st, inner, getattr(inner, "buffer", inner), getattr(inner, "raw", inner))}.values():
                if not self.closed_ops(s, h):
                    return False
        if h.userfd is not None and not h.closefd and h.userfd not in b.keep:
            b.keep.append(h.userfd)
        if owns and self.held(fi):
            self.pending[fi].add(h.fd)
            ctx.count("pending")
        self.due(fi)
        return self.check()

    def closed_ops(self, s, h):
        ctx, rng = self.ctx, self.rng
        what = type(getattr(s, "wrapped_stream", s)).__name__
        for name, args in rng.sample(OPS, 8):
            if not hasattr(type(s), name) and (name.startswith("_") or not hasattr(type(getattr(s, "wrapped_stream", s)), name)):
                continue
            fn = getattr(s, name)
            args = tuple(bytearray(a) if isinstance(a, bytearray) else a for a in args)
            if args and args[0] in ("x", ["x"]) and "Text" not in what:
                args = (b"x",) if args[0] == "x" else ([b"x"],)
            ctx.count("closed_ops")
            try:
                res = fn(*args)
            except (ValueError, OSError):
                continue
            except Exception as e:
                return self.fail("closed:%s" % name, "%s.%s%r after close raises %r instead of ValueError" % (what, name, args, e))
            return self.fail("closed:%s" % name, "%s.%s%r after close returns %r" % (what, name, args, res))
        for _ in range(rng.choice([1, 2])):
            s.close()
        if s.closed is not True:
            return self.fail("closed", "%s.closed is %r after close" % (what, s.closed))
        return True

    def run(self, steps):
        self.maxh = self.rng.choice([3, 4, 6, 12])
        gone = self.rng.randrange(2, steps) if self.rng.random() < 0.3 else -1
        ok = True
        for k in range(steps):
            self.ctx.crumb("step %d: %s" % (k, self.b.log[-1:]))
            if k == gone:
                self.b.unlink(0)
            ok = self.step()
            if not ok or self.wrong > 3:
                break
        while ok and self.b.handles:
            ok = self.close(self.rng.choice(self.b.handles))
        for h in list(self.b.handles):
            self.b.close(h, how="close")
        self.b.done()
        for fd in set(self.b.keep):
            try:
                os.close(fd)
            except OSError:
                pass
        if ok:
            left = {fd for fd, k in table().items() if k[:2] in self.ino}
            if left:
                self.fail("leak", "at the end descriptors %s are still open" % sorted(left))
        else:
            for fd, k in table().items():
                if k[:2] in self.ino:
                    os.close(fd)


def stress(ctx, rs, secs):
    """Threads opening, locking and closing streams, while canaries look at their own descriptors."""
    names = []
    for k in range(3):
        p = ctx.fresh("st")
        with open(p, "wb") as f:
            f.write(b"file%d---" % k)
        names.append(p)
    before = table()
    stop = threading.Event()
    bad = []
    opens = [0]
    nullst = os.stat("/dev/null")

    def worker(seed):
        rng = random.Random(seed)
        mine = []
        try:
            while not stop.is_set():
                r = rng.random()
                if len(mine) < 4 and r < 0.5:
                    k = rng.randrange(3)
                    mine.append((k, rs.rsopen(names[k], rng.choice(["r+b", "RWB", "r+b"]), buffering=rng.choice([0, -1]), locking=False, thread_safe=rng.random() < 0.5)))
                    opens[0] += 1
                elif mine and r < 0.6:
                    k, s = rng.choice(mine)
                    s.seek(0)
                    d = s.read(5)
                    if d != b"file%d" % k:
                        bad.append("a stream on file%d reads %r" % (k, d))
                elif mine and r < 0.8:
                    k, s = rng.choice(mine)
                    try:
                        with s.lock_file(timeout=0, offset=rng.randrange(4), length=rng.choice([1, 2]), shared=rng.random() < 0.7):
                            s.seek(0)
                            if s.read(5) != b"file%d" % k:
                                bad.append("a stream on file%d reads something else" % k)
                    except (rs.LockingException, RuntimeError):
                        pass
                elif mine:
                    k, s = mine.pop(rng.randrange(len(mine)))
                    if rng.random() < 0.8:
                        s.close()
                    del s
            for k, s in mine:
                s.close()
        except Exception as e:
            bad.append("%s in a thread: %r" % (type(e).__name__, e))

    def canary():
        while not stop.is_set():
            c = [os.open("/dev/null", os.O_RDWR) for _ in range(3)]
            time.sleep(0.0003)
            for fd in c:
                try:
                    st = os.fstat(fd)
                    if st.st_rdev != nullst.st_rdev:
                        bad.append("descriptor %d of somebody else got replaced" % fd)
                        continue
                    os.close(fd)
                except OSError as e:
                    bad.append("descriptor %d of somebody else got closed" % fd)
    ths = [threading.Thread(target=worker, args=(ctx.rng.random(),)) for _ in range(4)] + [threading.Thread(target=canary)]
    mark = shim.mark()
    shim.perturb(ctx.rng.getrandbits(40), 50, 200)
    with linear.jitter(ctx, ctx.rng):
        for t in ths:
            t.start()
        time.sleep(secs)
        stop.set()
        for t in ths:
            t.join(30)
    shim.perturb(1, 0, 0)
    gc.collect()
    ctx.count("stress_opens", opens[0])
    if any(t.is_alive() for t in ths):
        ctx.violation("stress-hang", "threads opening and closing streams do not end")
        return
    recs = shim.records(mark)
    for r in recs:
        if r.call == shim.CLOSE and r.err == errno.EBADF:
            bad.append("close() called on descriptor %d, which is not open" % r.fd)
    after = table()
    if not bad and after != before:
        bad.append("after all threads closed their streams, descriptors differ: %s / %s" % (after, before))
    if bad:
        ctx.violation("stress", "under concurrent opens and closes: %s" % bad[0], all=bad[:10])
    ctx.case(("stress", opens[0]), True)
    for p in names:
        os.unlink(p)


def growth(ctx, rs):
    """What the process keeps in memory does not depend on the number of streams it has closed."""
    rng = ctx.rng
    d = ctx.fresh("many")
    os.mkdir(d)
    names = [os.path.join(d, "f%d" % k) for k in range(240)]
    for p in names:
        with open(p, "wb") as f:
            f.write(b"0123456789")
    how = rng.choice(["open", "locks", "shared", "clash", "drop", "unlock", "failed"])
    kw = {"thread_safe": rng.random() < 0.5}
    mode = rng.choice(["r+b", "rb", "r+", "r", "RWB"])

    def use(p):
        f = rs.rsopen(p, mode, locking=how in ("open", "drop", "failed"), **kw)
        if how == "locks":
            f.lock_file(length=3, offset=0)
            f.lock_file(length=3, offset=5)
        elif how == "shared":
            g = rs.rsopen(p, mode, locking=False)
            if mode.startswith("r") and "+" not in mode:
                f.lock_file(shared=True)
                g.lock_file(shared=True, timeout=0)
            g.close()
        elif how == "clash":
            f.lock_file(length=5)
            g = rs.rsopen(p, "r+b", locking=False)
            try:
                g.lock_file(timeout=0)
            except OSError:
                pass
            g.close()
        elif how == "unlock":
            f.lock_file(length=5)
            f.unlock_file(length=5)
        elif how == "failed":
            try:
                rs.rsopen(p, "r+b", timeout=0)
            except OSError:
                pass
        if how != "drop":
            f.close()
    for p in names[:40]:
        use(p)
    gc.collect()
    n = len(gc.get_objects())
    for p in names[40:]:
        use(p)
    gc.collect()
    more = len(gc.get_objects()) - n
    ctx.count("growths")
    ctx.case(("growth", how, mode, kw["thread_safe"]), True)
    if more > 150:
        ctx.violation("memory", "after streams on 200 files were closed, %d more objects stay in memory (%s, mode %s)" % (more, how, mode), how=how)
    for p in names:
        os.unlink(p)
    os.rmdir(d)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    prober, foreign = locks.Helper(), locks.Helper()
    try:
        os.close(0)
    except OSError:
        pass
    shim.start(ctx.dir)
    gc.collect()
    base = table()
    n = 0
    while ctx.more(n, 12, 100000):
        shim.reset()
        Hist(ctx, rs, prober, foreign, ctx.rng.choice([1, 1, 2, 3]), base).run(ctx.rng.choice([20, 40, 60]))
        n += 1
        if n % 30 == 3:
            growth(ctx, rs)
        if n % 15 == 5:
            shim.reset()
            stress(ctx, rs, 0.4)
    ctx.count("histories", n)
    prober.stop()
    foreign.stop()
