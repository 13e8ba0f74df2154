"""C04: a blocked locker proceeds once the conflict is gone, however the conflicting lock disappears."""
import os, queue, threading, time
from lib import vf, shim, linear, locks
from lib.actors import ThreadActor, ProcActor
from lib.locks import INF, overlap

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: blocked attempts of threads and processes watched for bounded progress after every way of releasing the conflicting locks"
NOTE = ("Liveness is restated as bounded progress: every waiter has to be granted within 20 s (normally milliseconds) once no conflicting "
        "lock remains; releases, placements and delays are sampled.")
RULE = ("1-3 owners and 1-6 waiters (threads of one process, child processes; lock_file, locking open, whole-file helpers; every layer) "
        "with ranges in every overlap relation; owners release by unlock, with, exception, close, collection, exit or kill; a case is "
        "non-trivial when a waiter was observed blocked before the release; distinct by (owners, waiters, releases).")
BUDGET = {"quick": 12, "thorough": 200}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"granted_waiters": 300, "blocked_waiters": 200, "same_process_waiters": 100, "cross_process_waiters": 100, "rings": 5, "timed_out_neighbours": 5,
       "shared_together": 20, "patchworks": 20, "pending_neighbours": 5}
STALL = 20.0
HOWS = ["unlock", "with", "with-exc", "close", "close-raw", "with-stream", "with-stream-exc", "gc"]


def shards(tier, seed):
    return [("w%d" % i, {"i": i}) for i in range(8)]


class Case:
    def __init__(self, ctx, rs):
        self.ctx, self.rs, self.rng = ctx, rs, ctx.rng
        self.path = ctx.fresh("w")
        with open(self.path, "wb") as f:
            f.write(b"0123456789" * 5)
        self.events = queue.Queue()
        self.actors = {}
        self.seen = {}
        self.trace = []
        self.todo = []

    def add(self, name, where, spec):
        self.todo.append((name, where, spec))

    def build(self):
        for name, where, spec in self.todo:  # children first: no thread of ours must be running
            if where == "proc":
                self.actors[name] = ProcActor(self.rs, self.path, name, spec, self.events)
        for name, where, spec in self.todo:
            if where == "thread":
                self.actors[name] = ThreadActor(self.rs, self.path, name, spec, self.events)
            else:
                self.actors[name].listen()

    def send(self, name, cmd, arg=None):
        self.trace.append("%.4f %s: %s %s" % (time.monotonic() - self.ctx.t0, name, cmd, arg or ""))
        self.seen.pop(name, None)
        self.actors[name].send(cmd, arg)

    def poll(self, until):
        """Gets events for some time."""
        while True:
            left = until - time.monotonic()
            if left <= 0:
                return
            try:
                t, name, ev, data = self.events.get(timeout=left)
            except queue.Empty:
                return
            self.trace.append("%.4f %s -> %s" % (t - self.ctx.t0, name, ev))
            self.seen[name] = ev
            if ev == "error":
                self.error(name, data)
            return

    def error(self, name, data):
        mech = "attempt-failed"
        self.ctx.violation(mech, "an attempt without timeout, or a release, raised an exception in %s" % name, trace=self.trace[-40:], traceback=data)

    def wait(self, names, what, limit=STALL, quiet=False):
        end = time.monotonic() + limit
        while any(self.seen.get(n) is None for n in names):
            if time.monotonic() > end:
                if not quiet:
                    stuck = [n for n in names if self.seen.get(n) is None]
                    self.ctx.violation("stuck:" + what, "%s not granted %d s after the last conflicting lock disappeared" % (stuck, limit),
                                       trace=self.trace[-60:], locks=self.proc_locks())
                return False
            self.poll(min(end, time.monotonic() + 0.5))
        return True

    def proc_locks(self):
        ino = ":%d " % os.stat(self.path).st_ino
        return [l.strip() for l in open("/proc/locks") if ino in l]

    def end(self, ok=True):
        for n, a in self.actors.items():
            if ok:
                self.seen.pop(n, None)
                a.send("clean")
        for a in self.actors.values():
            a.quit()
        for a in self.actors.values():
            if not ok:
                a.kill()
            a.join(5)
        try:
            os.unlink(self.path)
        except OSError:
            pass


def spec(rng, shared, kind=None, iv=None):
    kind = kind or rng.choice(["lock", "lock", "open"])
    if kind == "open":
        iv = (0, INF)
    return dict(kind=kind, shared=shared, iv=iv, form=rng.choice(["raw", "buf", "txt", "adv", "app"]), ts=rng.random() < 0.5,
                timeout=rng.choice([None, None, None, 60]), userfd=rng.random() < 0.15)


def matrix(ctx, rs):
    rng = ctx.rng
    c = Case(ctx, rs)
    base = rng.choice([0, 0, 3, 2**31 - 3, 2**32 - 3])
    iv = (base, base + 12) if rng.random() < 0.7 else (base, INF)
    nown = rng.choice([1, 1, 1, 2, 3])
    oshared = nown > 1
    owners, waiters = [], []
    for k in range(nown):
        where = rng.choice(["thread", "proc"])
        sp = spec(rng, oshared, iv=iv)
        if nown == 3 and k == 2:
            sp["iv"] = (iv[0] + 5, iv[0] + 30) if sp["kind"] == "lock" else sp["iv"]
        sp["timeout"] = 0
        c.add("owner%d" % k, where, sp)
        owners.append(("owner%d" % k, where, sp))
    nwait = rng.choice([1, 1, 2, 3, 4, 6])
    flavour = rng.choice(["ex", "ex", "sh", "mixed"]) if not oshared else rng.choice(["ex", "ex", "mixed"])
    for k in range(nwait):
        where = rng.choice(["thread", "proc"]) if nwait < 4 else rng.choice(["thread", "thread", "proc"])
        sh = {"ex": False, "sh": True, "mixed": rng.random() < 0.5}[flavour]
        o = rng.choice([iv, (iv[0] + 2, iv[0] + 4), (iv[0], iv[0] + 1), (max(0, iv[0] - 1), INF), (iv[0] + 11, iv[0] + 40), (iv[0] + 4, iv[0] + 9)])
        sp = spec(rng, sh, iv=o)
        if rng.random() < 0.2 and flavour != "sh":
            sp["kind"], sp["iv"], sp["helper"] = "open", (0, INF), "read" if sh else rng.choice(["write", "append"])
        c.add("waiter%d" % k, where, sp)
        waiters.append(("waiter%d" % k, where, sp))
    c.build()
    ok = True
    try:
        for n, w, sp in owners:
            c.send(n, "take")
            if not c.wait([n], "owner"):
                ok = False
                return
        for n, w, sp in waiters:
            if "helper" in sp:
                c.send(n, "helper", sp["helper"])
            else:
                c.send(n, "take")
            if rng.random() < 0.3:
                c.poll(time.monotonic() + rng.random() * 0.01)
        c.poll(time.monotonic() + rng.choice([0.0, 0.002, 0.02, 0.05]))
        blocked = [n for n, w, sp in waiters if c.seen.get(n) is None]
        for n, w, sp in waiters:
            must = any(overlap(o[2]["iv"], sp["iv"]) and not (sp["shared"] and o[2]["shared"]) for o in owners)
            if must and c.seen.get(n) == "granted":
                ctx.violation("granted-early", "%s was granted although a conflicting lock is held" % n, trace=c.trace[-40:])
        hows = []
        order = list(owners)
        rng.shuffle(order)
        given = []
        for n, w, sp in order:
            how = rng.choice(HOWS if w == "thread" else HOWS + ["die-exit", "die-kill", "die-kill"])
            hows.append(how)
            if how.startswith("die"):
                c.send(n, "die", how[4:])
            else:
                c.send(n, "give", how)
                given.append(n)
            if rng.random() < 0.3:
                c.poll(time.monotonic() + rng.random() * 0.01)
        together = flavour == "sh"
        if not c.wait(given, "release"):
            ok = False
            return
        pending = [w[0] for w in waiters]
        if together:
            if not c.wait(pending, "shared"):
                ok = False
                return
            ctx.count("shared_together", len(pending))
            ctx.count("granted_waiters", len(pending))
        else:
            end = time.monotonic() + STALL
            released = set()
            while len(released) < len(waiters):
                for n, w, sp in waiters:
                    if n not in released and c.seen.get(n) == "granted":
                        released.add(n)
                        ctx.count("granted_waiters")
                        end = time.monotonic() + STALL
                        if "helper" not in sp:
                            c.send(n, "give", rng.choice(HOWS))
                            c.seen[n] = None
                if len(released) == len(waiters):
                    break
                if time.monotonic() > end:
                    stuck = [w[0] for w in waiters if w[0] not in released]
                    ctx.violation("stuck:waiter", "%s not granted %d s after the last conflicting lock disappeared" % (stuck, STALL),
                                  trace=c.trace[-60:], locks=c.proc_locks())
                    ok = False
                    return
                c.poll(min(end, time.monotonic() + 0.5))
        ctx.count("blocked_waiters", len(blocked))
        for n, w, sp in waiters:
            if any(o[1] == w == "thread" for o in owners):
                ctx.count("same_process_waiters")
            if any(o[1] == "proc" or w == "proc" for o in owners):
                ctx.count("cross_process_waiters")
        key = (tuple((w, s["kind"], s["shared"], s["form"]) for n, w, s in owners), tuple(sorted((w, s["kind"], s["shared"], s.get("helper", "")) for n, w, s in waiters)), tuple(hows))
        ctx.case(key, bool(blocked), sample={"owners": [[o[1], o[2]["kind"], o[2]["shared"]] for o in owners], "released by": hows,
                                             "waiters": [[w[1], w[2]["kind"], w[2]["shared"]] for w in waiters], "blocked": len(blocked)})
    finally:
        c.end(ok)


def ring(ctx, rs):
    """Two processes wait for each other's locks in different threads: not a deadlock, although the system may believe it."""
    rng = ctx.rng
    c = Case(ctx, rs)

    def child(first, second):
        # runs in a process of its own: thread A owns `first` for a while, thread B waits for `second`
        pass
    # process 1 is this one (two threads), process 2 a child with two actors is emulated by a forked double actor
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            a = rs.rsopen(c.path, "r+b", locking=False, buffering=0, thread_safe=False)
            b = rs.rsopen(c.path, "r+b", locking=False, buffering=0, thread_safe=False)
            a.lock_file(timeout=0, offset=10, length=10)
            os.write(w2, b"L")
            os.read(r1, 1)  # the parent owns [0, 10)
            got = []

            def waiter():
                b.lock_file(offset=0, length=10)
                got.append(1)
                b.unlock_file(offset=0, length=10)
            th = threading.Thread(target=waiter)
            th.start()
            os.write(w2, b"W")
            os.read(r1, 1)
            a.unlock_file(offset=10, length=10)
            th.join(STALL)
            os.write(w2, b"G" if got else b"S")
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            os.write(w2, b"E")
        finally:
            os._exit(code)
    os.close(r1)
    os.close(w2)
    try:
        assert os.read(r2, 1) == b"L"
        a = rs.rsopen(c.path, "r+b", locking=False, buffering=0, thread_safe=False)
        b = rs.rsopen(c.path, "r+b", locking=False, buffering=0, thread_safe=False)
        a.lock_file(timeout=0, offset=0, length=10)
        os.write(w1, b"x")
        os.read(r2, 1)
        got, err = [], []

        def waiter():
            try:
                b.lock_file(offset=10, length=10)
                got.append(1)
                b.unlock_file(offset=10, length=10)
            except BaseException as e:
                err.append(repr(e))
        th = threading.Thread(target=waiter, daemon=True)
        th.start()
        time.sleep(rng.choice([0.002, 0.02, 0.15]))
        order = rng.random() < 0.5
        if order:
            os.write(w1, b"x")
            a.unlock_file(offset=0, length=10)
        else:
            a.unlock_file(offset=0, length=10)
            os.write(w1, b"x")
        th.join(STALL)
        other = os.read(r2, 1)
        if not got or other != b"G":
            ctx.violation("stuck:ring", "waiters of two processes owning different ranges: here %s %s, there %r" % (
                "granted" if got else "not granted", err, other), locks=c.proc_locks())
        ctx.count("rings")
        ctx.count("granted_waiters", 2)
        ctx.case(("ring", order))
        a.close()
        b.close()
    finally:
        os.close(w1)
        os.close(r2)
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        os.unlink(c.path)


def neighbours(ctx, rs, foreign):
    """A waiter is blocked only by another attempt of its process, which gives up; or by released bytes of a pending attempt."""
    import fcntl
    rng = ctx.rng
    path = ctx.fresh("n")
    with open(path, "wb") as f:
        f.write(b"0" * 50)
    ffd = foreign.call("open", path)
    mk = lambda mode="r+b": rs.rsopen(path, mode, locking=False, buffering=0, thread_safe=rng.random() < 0.5)
    a, b = mk(), mk()
    foreign.setlk(ffd, fcntl.F_WRLCK, 10, 20)
    ths = []
    got = []
    if rng.random() < 0.5:
        # a gives up after its timeout; b waits without timeout for bytes only a wants
        t = rng.choice([0.03, 0.08])

        def ra():
            try:
                a.lock_file(timeout=t, offset=0, length=15)
                got.append("a?")
            except rs.LockingException:
                pass

        def rb():
            b.lock_file(offset=0, length=5)
            got.append("b")
            b.unlock_file(offset=0, length=5)
        ta = threading.Thread(target=ra, daemon=True)
        tb = threading.Thread(target=rb, daemon=True)
        ta.start()
        time.sleep(0.01)
        tb.start()
        tb.join(STALL)
        ta.join(5)
        if "b" not in got or "a?" in got:
            ctx.violation("stuck:neighbour", "a waiter blocked only by an attempt that timed out is still blocked %d s later (%s)" % (STALL, got))
        ctx.count("timed_out_neighbours")
        ctx.case(("timed-out-neighbour", t))
        foreign.setlk(ffd, fcntl.F_UNLCK, 10, 20)
    else:
        # shared bytes are released while a shared attempt of the same process on a larger range is pending
        d = mk("rb")
        d.lock_file(timeout=0, offset=0, length=10, shared=True)

        def ra():
            a.lock_file(offset=0, length=15, shared=True)
            got.append("a")
        ta = threading.Thread(target=ra, daemon=True)
        ta.start()
        time.sleep(rng.choice([0.01, 0.03]))
        if rng.random() < 0.5:
            d.unlock_file(offset=0, length=10)
        else:
            d.close()
        end = time.monotonic() + 3
        ok = False
        while not ok and time.monotonic() < end:
            ok = foreign.setlk(ffd, fcntl.F_WRLCK, 0, 10)
            time.sleep(0.001)
        if not ok:
            ctx.violation("stuck:pending", "released bytes stay refused to other processes because of an attempt still waiting")
        if got:
            ctx.violation("granted-early", "granted although another process holds the range")
        foreign.setlk(ffd, fcntl.F_UNLCK, 0, 20)
        ta.join(STALL)
        if not got:
            ctx.violation("stuck:pending-waiter", "a waiter is still blocked %d s after the end of the conflict" % STALL)
        else:
            if foreign.setlk(ffd, fcntl.F_WRLCK, 0, 1) or foreign.setlk(ffd, fcntl.F_WRLCK, 14, 15):
                ctx.violation("granted-not-held", "a waiter was granted a range it does not really hold")
        ctx.count("pending_neighbours")
        ctx.case(("pending-neighbour",))
        d.close()
    a.close()
    b.close()
    foreign.call("close", ffd)
    os.unlink(path)


def patchwork(ctx, rs, foreign):
    """Areas of one file, owned by streams of this process and by another process, are released one after the other: every waiter whose own area is free must proceed at once."""
    import fcntl
    rng = ctx.rng
    path = ctx.fresh("p")
    with open(path, "wb") as f:
        f.write(b"0" * 90)
    keep = os.open(path, os.O_RDWR)
    ffd = foreign.call("open", path)
    n = rng.choice([2, 3, 4, 6])
    areas = [(10 * k, 10 * k + 10 if k < n - 1 or rng.random() < 0.7 else INF) for k in range(n)]
    streams = [rs.rsopen(path, "r+b", locking=False, buffering=rng.choice([0, 64]), thread_safe=rng.random() < 0.5) for _ in range(rng.choice([1, 1, 2, n]))]
    owners = []
    for a in areas:
        o = rng.choice(streams + ["foreign"]) if rng.random() < 0.9 else None
        if o == "foreign":
            foreign.setlk(ffd, fcntl.F_WRLCK, *a)
        elif o is not None:
            o.lock_file(timeout=0, offset=a[0], length=None if a[1] == INF else 10)
        owners.append(o)
    held = {k for k in range(n) if owners[k] is not None}
    # waiters on disjoint runs of areas
    cuts = sorted(rng.sample(range(1, n), rng.randrange(0, n)))
    runs = [(x, y) for x, y in zip([0] + cuts, cuts + [n])]
    rng.shuffle(runs)
    got, errs, ths = [], [], []
    trace = []
    for w, (x, y) in enumerate(runs):
        lo, hi = areas[x][0] + rng.choice([0, 0, 3]), areas[y - 1][1]
        if hi != INF and rng.random() < 0.3:
            hi -= 2
        shared = rng.random() < 0.3

        def body(w=w, lo=lo, hi=hi, shared=shared):
            try:
                st = rs.rsopen(path, "r+b", locking=False, buffering=0, thread_safe=False)
                ln = None if hi == INF else hi - lo
                st.lock_file(offset=lo, length=ln, shared=shared)
                got.append(w)
                st.unlock_file(offset=lo, length=ln)
                st.close()
            except BaseException as e:
                errs.append(repr(e))
        t = threading.Thread(target=body, daemon=True)
        t.start()
        ths.append(t)
        time.sleep(rng.choice([0, 0.0005, 0.003]))
    order = sorted(held)
    rng.shuffle(order)
    time.sleep(0.005)
    stuck = False
    for k in [None] + order:
        if k is not None and k not in held:
            continue  # gone with the stream
        if k is not None:
            o, a = owners[k], areas[k]
            same = [j for j in held if owners[j] is o]
            if o == "foreign":
                foreign.setlk(ffd, fcntl.F_UNLCK, *a)
                held.discard(k)
            elif rng.random() < 0.8:
                o.unlock_file(offset=a[0], length=None if a[1] == INF else 10)
                held.discard(k)
            else:
                o.close()
                held -= set(same)
            trace.append("%s of area %d released; still held %s; granted %s" % ("foreign" if o == "foreign" else "own lock", k, sorted(held), sorted(got)))
        free = [w for w, (x, y) in enumerate(runs) if not any(x <= j < y for j in held)]
        early = [w for w in list(got) if w not in free]
        end = time.monotonic() + STALL
        while set(free) - set(got) and not errs and time.monotonic() < end:
            time.sleep(0.0005)
        late = sorted(set(free) - set(got))
        if errs:
            ctx.violation("attempt-failed", "an attempt without timeout raised %s" % errs[0], trace=trace)
            stuck = True
        elif early:
            ctx.violation("granted-early", "waiters %s were granted although locks remain on areas %s (waiters on areas %s)" % (early, sorted(held), runs), trace=trace)
            stuck = True
        elif late:
            ctx.violation("stuck:patchwork", "waiters %s are not granted %d s after their areas became free (held: %s, waiters on areas %s)" % (late, STALL, sorted(held), runs), trace=trace)
            stuck = True
        if stuck:
            break
    ctx.count("patchworks")
    ctx.count("granted_waiters", len(got))
    ctx.case(("patchwork", tuple("f" if o == "foreign" else "-" if o is None else streams.index(o) for o in owners), tuple(sorted(runs)), tuple(order)), len(runs) > 1,
             sample={"areas": areas, "waiters on": runs, "released": order})
    if not stuck:
        for t in ths:
            t.join(5)
    for st in streams:
        st.close()
    foreign.call("close", ffd)
    os.close(keep)
    os.unlink(path)


def run(ctx, i):
    foreign = locks.Helper()
    rs = vf.import_rsfile()
    rs.set_rsfile_options(default_spinlock_delay=0.01)
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    n = 0
    while ctx.more(n, 12, 100000):
        if i % 2 and n % 10 == 0:
            shim.perturb(ctx.rng.randrange(1 << 30), ctx.rng.choice([0, 100, 300]), ctx.rng.choice([200, 1500]))
        ctx.crumb("case %d" % n)
        with linear.jitter(ctx, ctx.rng, 0.3, 500):
            if n % 12 == 5:
                ring(ctx, rs)
            elif n % 6 == 3:
                patchwork(ctx, rs, foreign)
            elif n % 6 == 2:
                neighbours(ctx, rs, foreign)
            else:
                matrix(ctx, rs)
        n += 1
    ctx.count("cases", n)
    foreign.stop()
