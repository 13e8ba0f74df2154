"""C09: the stream mutex really is the unit of exclusion."""
import errno, gc, io, multiprocessing, os, select, signal, struct, sys, threading, time, traceback
from lib import vf, shim, linear

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: a recording mutex is compared with the log of system calls (each must fall inside a period during which its thread "
             "holds the mutex), and holders of the mutex watch that calls of other threads and forked children take no effect")
NOTE = "Sampled calls, layers, mutex kinds and interleavings; 'no effect' is judged on system calls, file content and completion of the call."
RULE = ("a call (or compound section) on a thread-safe stream with its own, a user-supplied or a shared mutex (recursive thread lock, recursive "
        "multiprocessing lock, recording lock), alone, failing, or attempted by another thread or forked child while the mutex is held; distinct by "
        "(scenario, layer, call, mutex kind, outcome); non-trivial when the call issues system calls or raises.")
BUDGET = {"quick": 11, "thorough": 180}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"judged_syscalls": 2000, "raising_calls": 300, "blocked_threads": 150, "blocked_children": 40, "compound_sections": 500, "shared_mutex": 30, "transfers": 200}


def shards(tier, seed):
    return [("m%d" % i, {"i": i}) for i in range(8)]


class RecMutex:
    """Recursive mutex remembering the periods during which each thread holds it."""

    def __init__(self):
        self.lock, self.depth, self.owner, self.periods = threading.RLock(), 0, None, []

    def acquire(self, *a, **k):
        r = self.lock.acquire(*a, **k)
        if r:
            self.depth += 1
            if self.depth == 1:
                self.owner = shim.lib().vs_tid()
                self.t = time.monotonic_ns()
        return r

    def release(self):
        if self.depth == 1:
            self.periods.append((self.t, time.monotonic_ns(), self.owner))
        self.depth -= 1
        self.lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


LAYERS = [("raw", "r+b", 0), ("rawr", "rb", 0), ("raww", "ab", 0), ("rand", "r+b", 16), ("reader", "rb", 8), ("writer", "WB", 32), ("app", "ab", 16),
          ("text", "r+", 16), ("textr", "r", 8), ("textw", "a", 8), ("adv", "RWB", -1), ("advt", "RW", -1)]

INHERIT = {"r+b": "RWNBI", "rb": "RIBN", "ab": "AIB", "WB": "WIB", "r+": "IRWN", "r": "RNI", "a": "AI", "RWB": "RWIB", "RW": "RWI"}


def calls_for(layer):
    """name -> callable(stream); some raise by nature."""
    text = layer.startswith("text") or layer == "advt"
    b = (lambda s: s) if text else (lambda s: s.encode())

    def lockblock(s):
        with s.lock_file(timeout=0, offset=5, length=3):
            pass

    def lockblock_exc(s):
        with s.lock_file(timeout=0):
            raise KeyError(1)
    return {
        "read": lambda s: s.read(5), "readall": lambda s: s.read(), "readline": lambda s: s.readline(), "readlines": lambda s: s.readlines(),
        "readinto": lambda s: s.readinto(bytearray(7)), "next": lambda s: next(s), "list": lambda s: list(s), "peek": lambda s: s.peek(1),
        "read1": lambda s: s.read1(4), "write": lambda s: s.write(b("abc")), "write-big": lambda s: s.write(b("z" * 100)),
        "writelines": lambda s: s.writelines([b("q" * 20), b("r" * 20)]), "seek": lambda s: s.seek(3), "seek-end": lambda s: s.seek(0, 2),
        "tell": lambda s: s.tell(), "truncate": lambda s: s.truncate(30), "truncate-none": lambda s: s.truncate(), "flush": lambda s: s.flush(),
        "size": lambda s: s.size(), "sync": lambda s: s.sync(), "times": lambda s: s.times(), "uid": lambda s: s.unique_id(),
        "fileno": lambda s: s.fileno(), "isatty": lambda s: s.isatty(), "seekable": lambda s: s.seekable(), "mode": lambda s: s.mode,
        "lock": lambda s: s.lock_file(timeout=0, offset=50, length=3), "lockblock": lockblock, "lockblock-exc": lockblock_exc,
        "unlock-bad": lambda s: s.unlock_file(offset=999), "lock-twice": lambda s: (s.lock_file(timeout=0, offset=70, length=3), s.lock_file(timeout=0, offset=71)),
        "bad-seek": lambda s: s.seek(-5), "bad-whence": lambda s: s.seek(0, 77), "bad-write": lambda s: s.write(5), "bad-args": lambda s: s.read(1, 2, 3),
        "bad-truncate": lambda s: s.truncate(-3), "no-attr": lambda s: s.frobnicate(), "handle": lambda s: s.handle(), "name": lambda s: s.name,
        "bad-timeout": lambda s: s.lock_file(timeout="x"), "repr": lambda s: repr(s), "str": lambda s: str(s), "iter": lambda s: iter(s),
    }


NAMES = sorted(calls_for("raw"))
CLOSING = {"close": lambda s: s.close(), "with": lambda s: s.__exit__(None, None, None), "close2": lambda s: (s.close(), s.close())}


class Sc:
    def __init__(self, ctx, rs):
        self.ctx, self.rs, self.rng = ctx, rs, ctx.rng

    def make(self):
        p = self.ctx.fresh("x")
        with open(p, "wb") as f:
            f.write(b"line one\nline two\nline three\n" * 3)
        return p

    def open(self, p, layer=None, **kw):
        name, mode, buf = layer or self.rng.choice(LAYERS)
        k = dict(buffering=buf, locking=False, thread_safe=True)
        k.update(kw)
        rng = self.rng
        if layer is None and rng.random() < 0.4:
            mode = INHERIT[mode]
        if layer is None and "a" not in mode.lower() and rng.random() < 0.25:
            fd = os.open(p, os.O_RDWR)
            k[rng.choice(["fileno", "handle"])] = fd
            p = None
        elif layer is None and rng.random() < 0.1:
            k["opener"] = lambda n, fl: os.open(n, fl)
        return name, self.rs.rsopen(p, mode, **k)


def recorded(sc):
    """Each system call of each stream call happens while the caller holds the mutex; the mutex is free afterwards."""
    ctx, rng = sc.ctx, sc.rng
    p = sc.make()
    mx = RecMutex()
    name, st = sc.open(p, mutex=mx)
    if st.mutex is not mx:
        ctx.violation("identity", "the mutex exposed by the stream is not the one supplied")
    fd = st.fileno()
    ino = os.stat(p).st_ino
    table = calls_for(name)
    mx.periods.clear()
    seq = [rng.choice(NAMES) for _ in range(rng.choice([4, 10, 25]))] + [rng.choice(list(CLOSING))] + [rng.choice(NAMES) for _ in range(rng.choice([0, 2]))]
    faults = rng.random() < 0.3
    for cn in seq:
        fn = CLOSING.get(cn) or table[cn]
        rule = None
        if faults and rng.random() < 0.5:
            rule = shim.Rule(rng.choice([shim.READ, shim.WRITE, shim.LSEEK, shim.FCNTL, shim.FTRUNC, shim.FSTAT, shim.FSYNC]), shim.ERR,
                             rng.choice([errno.EIO, errno.ENOSPC, errno.EINVAL]), count=1, st=os.stat(p))
        m = shim.mark()
        raised = None
        try:
            fn(st)
        except Exception as e:
            raised = type(e).__name__
            e = None
        if rule:
            rule.clear()
        if mx.depth:
            ctx.violation("left-held", "after %s (%s stream%s) the mutex is still held" % (cn, name, ", raising " + raised if raised else ""), calls=seq)
            return
        tid = shim.lib().vs_tid()
        recs = [r for r in shim.records(m) if r.tid == tid and r.ino == ino]
        for r in recs:
            ctx.count("judged_syscalls")
            if not any(a <= r.t0 and r.t1 <= b and o == tid for (a, b, o) in mx.periods[-400:]):
                ctx.violation("outside:%s" % cn, "%s of a %s stream issues %s without holding the mutex" % (cn, name, shim.NAMES.get(r.call)), calls=seq)
                return
        if raised:
            ctx.count("raising_calls")
        ctx.case(("rec", name, cn, raised, faults, len(recs) > 0), bool(recs or raised), sample={"layer": name, "call": cn, "raised": raised, "system calls": len(recs)})
    try:
        st.close()
    except Exception:
        pass
    # free for other threads
    ok = []
    t = threading.Thread(target=lambda: ok.append(mx.acquire(timeout=10)))
    t.start()
    t.join()
    if not ok[0]:
        ctx.violation("left-held", "another thread cannot take the mutex after the calls", calls=seq)
    os.unlink(p)


def make_mutex(rng):
    k = rng.choice(["own", "rlock", "rec", "mp"])
    return k, {"own": None, "rlock": threading.RLock(), "rec": RecMutex(), "mp": multiprocessing.RLock() if k == "mp" else None}[k]


def held(sc):
    """While somebody holds the mutex, calls of other threads take no effect."""
    ctx, rng = sc.ctx, sc.rng
    p = sc.make()
    kind, mx = make_mutex(rng)
    name, st = sc.open(p, **({"mutex": mx} if mx is not None else {}))
    names = [n for n in NAMES if n not in ("iter", "repr", "str", "mode", "name", "no-attr", "lock-twice")]
    cn = rng.choice(names + ["close", "with", "exit-lock"])
    fn = CLOSING.get(cn) or calls_for(name).get(cn)
    if cn == "exit-lock":
        try:
            mgr = st.lock_file(timeout=0, offset=80, length=2)
        except OSError:
            mgr = st.lock_file(timeout=0, offset=80, length=2, shared=True)

        def fn(s):
            with mgr:
                pass
    elif rng.random() < 0.5:  # first use of the method or not
        try:
            fn(st) if cn not in CLOSING else None
        except Exception:
            pass
    attr = {"no-attr": "frobnicate", "bad-args": "read", "uid": "unique_id"}.get(cn, cn)
    if st.closed or (attr.isalnum() and attr not in ("with", "lockblock", "next", "list", "readall") and not hasattr(st, attr)):
        return  # eg. peek() doesn't exist in raw streams
    ready, done, tid = threading.Event(), threading.Event(), []

    def body():
        tid.append(shim.lib().vs_tid())
        ready.set()
        try:
            fn(st)
        except BaseException as e:
            e = None
        done.set()
    ino = os.stat(p).st_ino
    th = threading.Thread(target=body, daemon=True)
    m = shim.mark()
    with st.mutex:
        try:
            st.flush()
        except OSError:
            pass
        before = os.stat(p)
        th.start()
        ready.wait(10)
        time.sleep(rng.choice([0.001, 0.002, 0.004]))
        if rng.random() < 0.5:
            try:
                st.size() if not st.closed else None  # the holder itself may use the stream
            except (OSError, ValueError):
                pass
        over = done.is_set()
        recs = [r for r in shim.records(m) if r.tid == tid[0] and r.ino == ino]
        after = os.stat(p)
        closed = st.closed
    if over:
        ctx.violation("not-excluded", "%s of a %s stream completed while another thread held its mutex (%s)" % (cn, name, kind))
    if recs or closed or (before.st_size, before.st_mtime_ns) != (after.st_size, after.st_mtime_ns):
        ctx.violation("not-excluded", "%s of a %s stream took effect while another thread held its mutex (%s): %s" % (cn, name, kind, recs[:3]))
    if not done.wait(15):
        ctx.violation("stuck", "%s of a %s stream does not proceed once the mutex (%s) is free" % (cn, name, kind))
        raise vf.StopShard()
    th.join()
    ctx.count("blocked_threads")
    ctx.case(("held", name, cn, kind))
    try:
        st.close()
    except Exception:
        pass
    os.unlink(p)


def child_held(sc):
    """The same with a forked child, on inheritable streams and with multiprocessing mutexes."""
    ctx, rng = sc.ctx, sc.rng
    p = sc.make()
    mp = multiprocessing.RLock() if rng.random() < 0.4 else None
    layer = rng.choice([("advI", "RWIB", 0), ("advIt", "RWI", -1), ("advIa", "RAIB", 16)])
    if mp is not None:
        name, st = sc.open(p, (layer[0], rng.choice([layer[1], "RWB"]), layer[2]), mutex=mp)
    else:
        name, st = sc.open(p, layer)
    text = not st.mode.count("b")
    data = "child" if text else b"child"
    st.seek(0, 2)
    child_holds = rng.random() < 0.4
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    size = os.stat(p).st_size
    pid = os.fork()  # nobody holds the mutex now: a multiprocessing lock held by the forking thread would be seen as owned by the child
    if pid == 0:
        try:
            signal.alarm(40)
            if child_holds:
                with st.mutex:
                    os.write(w1, b"a")
                    os.read(r2, 1)
                    st.write(data)
                    st.flush()
                    os.write(w1, b"b")
            else:
                os.write(w1, b"a")
                os.read(r2, 1)
                st.write(data)
                st.flush()
                os.write(w1, b"b")
            os._exit(0)
        except BaseException:
            os.write(w1, b"e")
            os._exit(1)
    os.close(w1)

    def got(limit):
        return os.read(r1, 1) if select.select([r1], [], [], limit)[0] else None
    if got(20) != b"a":
        ctx.violation("child", "a forked child could not start using the inherited stream")
        os.kill(pid, signal.SIGKILL)
    elif child_holds:
        done = threading.Event()
        th = threading.Thread(target=lambda: (st.write("parent" if text else b"parent"), st.flush(), done.set()), daemon=True)
        th.start()
        time.sleep(rng.choice([0.001, 0.003]))
        if done.is_set() or os.stat(p).st_size != size:
            ctx.violation("child-not-excluding", "a call of the parent took effect while its child held the mutex")
        os.write(w2, b"x")
        if got(20) != b"b" or not done.wait(20):
            ctx.violation("stuck", "calls do not proceed after the child released the mutex")
            os.kill(pid, signal.SIGKILL)
            raise vf.StopShard()
        th.join()
    else:
        st.mutex.acquire()
        os.write(w2, b"x")
        x = got(rng.choice([0.002, 0.005]))
        if x is not None or os.stat(p).st_size != size:
            ctx.violation("child-not-excluded", "a call of a forked child took effect while its parent held the mutex (%r)" % x)
        st.mutex.release()
        if x is None and got(20) != b"b":
            ctx.violation("stuck", "the call of a forked child does not proceed once the mutex is free")
            os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(r1)
    os.close(r2)
    os.close(w2)
    ctx.count("blocked_children")
    ctx.case(("child", name, mp is not None, child_holds))
    st.close()
    os.unlink(p)


def compound(sc):
    """Read-modify-write sections under the mutex lose nothing."""
    ctx, rng = sc.ctx, sc.rng
    p = sc.make()
    procs = rng.random() < 0.4
    n = rng.choice([2, 3, 4])
    k = rng.choice([4, 10])
    with open(p, "wb") as f:
        f.write(b"%010d" % 0)
    if procs:
        st = sc.rs.rsopen(p, "RWIB", buffering=0, locking=False)
    else:
        layer = rng.choice([("raw", "r+b", 0), ("rand", "r+b", 4), ("rand", "r+b", 100), ("text", "r+", 16)])
        st = sc.rs.rsopen(p, layer[1], buffering=layer[2], locking=False)
    text = "b" not in st.mode

    def work():
        for _ in range(k):
            with st.mutex:
                st.seek(0)
                v = int(st.read(10))
                if rng.random() < 0.3:
                    time.sleep(0)
                st.seek(0)
                d = "%010d" % (v + 1)
                st.write(d if text else d.encode())
    shim.perturb(rng.getrandbits(40), 200, 60)
    if procs:
        pids = []
        for _ in range(n):
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(60)
                    work()
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(1)
            pids.append(pid)
        sts = [os.waitpid(x, 0)[1] for x in pids]
        if any(sts):
            ctx.violation("compound-failed", "a section under the mutex failed in a child (status %s)" % sts)
    else:
        errs = []

        def guarded():
            try:
                work()
            except Exception:
                errs.append(traceback.format_exc())
        sys.setswitchinterval(1e-5)
        ths = [threading.Thread(target=guarded) for _ in range(n)]
        with linear.jitter(ctx, rng):
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        sys.setswitchinterval(0.005)
        if errs:
            ctx.violation("compound-failed", "a section under the mutex failed", traceback=errs[0])
    shim.perturb(0, 0, 0)
    st.close()
    with open(p, "rb") as f:
        got = f.read()
    if got != b"%010d" % (n * k):
        ctx.violation("lost-update", "%d increments under the mutex give %r" % (n * k, got), procs=procs)
    ctx.count("compound_sections", n * k)
    ctx.case(("compound", procs, n, k, st.mode if False else text))
    os.unlink(p)


def shared(sc):
    """Two streams with one mutex exclude each other: transfers conserve the sum, and one stalled call stops the other stream."""
    ctx, rng = sc.ctx, sc.rng
    p, q = sc.make(), sc.make()
    for x in (p, q):
        with open(x, "wb") as f:
            f.write(b"%06d" % 500)
    mx = threading.RLock() if rng.random() < 0.7 else multiprocessing.RLock()
    buf = rng.choice([0, 4, 64])
    a = sc.rs.rsopen(p, rng.choice(["r+b", "r+b", "RWNBI"]), buffering=buf, mutex=mx, locking=False)
    b = sc.rs.rsopen(q, rng.choice(["r+b", "r+b", "RWNBI"]), buffering=buf, mutex=mx, locking=False)
    # one call stalled in the kernel
    ino = os.stat(q).st_ino
    rule = shim.Rule(shim.LSEEK if rng.random() < 0.5 else shim.WRITE, shim.STALL_BEFORE, count=1, st=os.stat(p))
    t1 = threading.Thread(target=lambda: (a.seek(0), a.write(b"%06d" % 500), a.flush()), daemon=True)
    t1.start()
    end = time.monotonic() + 10
    while not rule.stalled() and time.monotonic() < end:
        time.sleep(0.0002)
    if rule.stalled():
        m = shim.mark()
        done = threading.Event()
        t2 = threading.Thread(target=lambda: (b.seek(0), b.read(3), b.size(), done.set()), daemon=True)
        t2.start()
        time.sleep(0.002)
        if done.is_set() or [r for r in shim.records(m) if r.ino == ino]:
            ctx.violation("shared-mutex", "a call on a second stream with the same mutex took effect during a call on the first one")
        rule.release()
        t1.join(20)
        t2.join(20)
        ctx.count("shared_mutex")
    rule.clear()
    t1.join(20)
    errs, sums = [], []
    stop = []

    def rd(s):
        s.seek(0)
        return int(s.read(6))

    def wr(s, v):
        s.seek(0)
        s.write(b"%06d" % v)

    def transfer(amount):
        try:
            for _ in range(6):
                with mx:
                    x, y = rd(a), rd(b)
                    wr(a, x - amount)
                    wr(b, y + amount)
                ctx.count("transfers")
        except Exception:
            errs.append(traceback.format_exc())

    def auditor():
        try:
            while not stop:
                with mx:
                    sums.append(rd(a) + rd(b))
        except Exception:
            errs.append(traceback.format_exc())
    sys.setswitchinterval(1e-5)
    ths = [threading.Thread(target=transfer, args=(d,)) for d in (1, 2, -3)]
    au = threading.Thread(target=auditor)
    with linear.jitter(ctx, rng):
        au.start()
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        stop.append(1)
        au.join()
    sys.setswitchinterval(0.005)
    if errs:
        ctx.violation("compound-failed", "a section under a shared mutex failed", traceback=errs[0])
    if any(s != 1000 for s in sums):
        ctx.violation("sum", "a holder of the shared mutex saw a state between two writes of another holder: %s" % [s for s in sums if s != 1000][:3])
    a.close()
    b.close()
    with open(p, "rb") as f, open(q, "rb") as g:
        x, y = f.read(), g.read()
    if (int(x), int(y)) != (500, 500):
        ctx.violation("lost-update", "transfers under a shared mutex give %r %r" % (x, y))
    ctx.case(("shared", buf, type(mx).__name__))
    os.unlink(p)
    os.unlink(q)


def failing_opens(sc):
    ctx, rng, rs = sc.ctx, sc.rng, sc.rs
    mx = RecMutex()
    p = sc.make()
    for kw in (dict(name=p, mode="x"), dict(name=p + "/nothing", mode="r"), dict(name=os.path.dirname(p), mode="r"), dict(name=p, mode="rb", encoding="utf8"),
               dict(name=p, mode="r", buffering=0), dict(name=p, mode="r", encoding="no-such")):
        try:
            rs.rsopen(mutex=mx, locking=False, **kw).close()
        except (OSError, ValueError, LookupError):
            pass
        if mx.depth:
            ctx.violation("left-held", "a refused open leaves the supplied mutex held: %r" % kw)
    try:
        rs.rsopen(p, "r", thread_safe=False, mutex=mx).close()
        ctx.violation("ignored-mutex", "a mutex was accepted, and ignored, for a stream that is not thread-safe")
    except ValueError:
        pass
    # the private mutex of each stream is its own
    a, b = rs.rsopen(p, "r", locking=False), rs.rsopen(p, "r", locking=False)
    if a.mutex is b.mutex:
        ctx.violation("identity", "two streams opened without mutex share one")
    a.close()
    b.close()
    ctx.case(("failing",), True)
    os.unlink(p)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    sc = Sc(ctx, rs)
    n = 0
    while ctx.more(n, 150, 10**6):
        if shim.mark() > 150000:
            shim.reset()
        ctx.crumb("case %d" % n)
        k = n % 16
        if k < 6:
            recorded(sc)
        elif k < 11:
            held(sc)
        elif k < 13:
            child_held(sc)
        elif k == 13:
            compound(sc)
        elif k == 14:
            shared(sc)
        elif n % 64 == 15:
            failing_opens(sc)
        n += 1
