"""C05: timeouts of lock attempts are honoured, failed attempts leave no trace, and freed ranges are granted."""
import gc, os, threading, time
from lib import vf, shim, locks
from lib.locks import INF, cut, overlap

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: timed lock attempts against scripted holders, system-call log (attempts made), descriptor and lock-table inspection after each failure"
NOTE = ("Lower bounds on the delay are strict; upper bounds are judged on the best of several repetitions so that machine load cannot "
        "cause an alarm; sampled scenarios.")
RULE = ("an attempt (lock_file, locking open or whole-file helper, every layer) with timeout t and spin delay d against a holder in "
        "another process, in another stream of the process, or both, kept or released during the wait; distinct by (attempt, t, d, "
        "holder kind, holder mode, range relation, outcome); non-trivial when the attempt was really blocked at first.")
BUDGET = {"quick": 12, "thorough": 200}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"failures": 150, "granted_after_release": 60, "zero_timeouts": 60, "enforced": 20, "trace_scans": 200, "spins_counted": 60, "clock_jumps": 30, "interrupted": 20, "relays": 20}


def shards(tier, seed):
    return [("t%d" % i, {}) for i in range(8)]


def fds():
    out = []
    for x in os.listdir("/proc/self/fd"):
        try:
            os.fstat(int(x))
            out.append(int(x))
        except OSError:
            pass  # the one used by listdir itself
    return sorted(out)


class Clock:
    """The system clock as the process sees it, which somebody may change at any moment."""
    real = staticmethod(time.time)
    offset = 0.0

    @classmethod
    def install(cls):
        time.time = lambda: cls.real() + cls.offset

    def __init__(self, jump, after, restore):
        self.jump, self.after, self.restore = jump, after, restore
        self.over = threading.Event()
        self.th = threading.Thread(target=self.go)

    def go(self):
        if not self.over.wait(self.after):
            Clock.offset = self.jump
            self.over.wait(self.restore)

    def __enter__(self):
        if self.jump:
            self.th.start()

    def __exit__(self, *exc):
        if self.jump:
            self.over.set()
            self.th.join()
            Clock.offset = 0.0


class Sc:
    def __init__(self, ctx, rs, prober, foreign):
        self.ctx, self.rs, self.prober, self.foreign, self.rng = ctx, rs, prober, foreign, ctx.rng

    def make(self):
        self.path = self.ctx.fresh("t")
        with open(self.path, "wb") as f:
            f.write(b"0123456789" * 4)
        self.st = os.stat(self.path)
        self.ffd = self.foreign.call("open", self.path)
        self.owner = None

    def drop(self):
        self.foreign.call("close", self.ffd)
        os.unlink(self.path)

    # a conflicting holder; returns a function releasing it
    def hold(self, kind, shared, iv):
        rs = self.rs
        if kind == "foreign":
            import fcntl
            assert self.foreign.setlk(self.ffd, fcntl.F_RDLCK if shared else fcntl.F_WRLCK, *iv)
            return lambda: self.foreign.setlk(self.ffd, fcntl.F_UNLCK, *iv)
        st = rs.rsopen(self.path, "rb" if shared else "r+b", buffering=self.rng.choice([0, -1]), locking=False,
                       thread_safe=self.rng.random() < 0.5)
        st.lock_file(timeout=0, offset=iv[0], length=None if iv[1] == INF else iv[1] - iv[0])
        how = self.rng.choice(["unlock", "close"])
        self.closers.append(st)
        if how == "unlock":
            return lambda: st.unlock_file(offset=iv[0], length=None if iv[1] == INF else iv[1] - iv[0])
        return st.close

    def table(self):
        a, b, p = self.prober.scan(self.path)
        self.ctx.count("trace_scans")
        return (a, b)

    def attempts_in(self, recs):
        """Numbers of (grabbing) lock attempts made by this process on the file."""
        return [r for r in recs if r.call == shim.FCNTL and r.x1 in (6, 7) and r.x2 in (0, 1) and r.ino == self.st.st_ino and r.pid == os.getpid()]

    def one(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        self.make()
        self.closers = []
        delay = rng.choice([0.005, 0.02, 0.05])
        enforced = rng.random() < 0.15
        release = rng.random() < 0.35
        if release:
            timeout = rng.choice([5, 10.0, 20])
        elif enforced:
            timeout = None
        else:
            timeout = rng.choice([0, 0, 0, 0.0, 0.03, 0.07, 0.15, 0.25, 0.6] + ([1] if ctx.tier == "thorough" else []))
        if timeout == 0:
            delay = 0.4
        elif rng.random() < 0.1 and not release:
            delay = 0.5
        limit = rng.choice([0.05, 0.15, 0.3])
        what = rng.choice(["lock", "lock", "lock", "open", "open", "read", "write", "append"])
        if enforced and what in ("read", "write", "append") and rng.random() < 0.5:
            what = "lock"
        rs.set_rsfile_options(default_spinlock_delay=delay, enforced_locking_timeout_value=limit if enforced else None)
        stream = None
        try:
            shared = rng.random() < 0.4
            # the attempt
            if what == "lock":
                s, ln = rng.choice([(0, None), (0, 0), (3, 4), (10, 10), (5, None), (2**31, 5), (2**32 - 2, 4)])
                iv = cut(s, ln)
                rs.set_rsfile_options(enforced_locking_timeout_value=limit if enforced else None)
                md = rng.choice(["r+b", "r+", "RWB", "RW"])
                stream = rs.rsopen(self.path, md, buffering=-1, locking=False, thread_safe=rng.random() < 0.5)
                if rng.random() < 0.4:
                    stream.write(b"xy" if "b" in md.lower() else "xy")

                def attempt():
                    kw = dict(shared=shared)
                    if timeout is not None or rng.random() < 0.5:
                        kw["timeout"] = timeout
                    return stream.lock_file(offset=s, length=ln, **kw)
            elif what == "open":
                iv = (0, INF)
                mode = rng.choice(["rb", "r", "RB"]) if shared else rng.choice(["r+b", "a", "wb", "w+", "ab", "RWEB", "A", "R+W"])
                kw = dict(mode=mode, buffering=-1, locking=True, thread_safe=rng.random() < 0.5)
                if timeout is not None or rng.random() < 0.5:
                    kw["timeout"] = timeout
                attempt = lambda: rs.rsopen(self.path, **kw)
            else:
                iv = (0, INF)
                shared = what == "read"
                kw = {"timeout": timeout}
                attempt = {"read": lambda: rs.read_from_file(self.path, binary=True, **kw),
                           "write": lambda: rs.write_to_file(self.path, b"new", **kw),
                           "append": lambda: rs.append_to_file(self.path, b"new", **kw)}[what]
            # the holders
            hk = rng.choice(["foreign", "local", "foreign", "local", "both"])
            hsh = False if shared else rng.random() < 0.4
            rel = rng.choice(["same", "inside", "cover", "left", "right"]) if iv[1] != INF else rng.choice(["same", "inside", "tail"])
            s, e = iv
            civ = {"same": iv, "inside": (s + 1, min(s + 2, e)) if e - s > 2 else iv, "cover": (max(0, s - 1), e + 1 if e != INF else e),
                   "left": (max(0, s - 2), s + 1), "right": ((e - 1, e + 3) if e != INF else iv), "tail": (s + 50, INF)}[rel]
            rels = []
            if hk in ("local", "both"):
                rels.append(self.hold("local", hsh, civ))
            if hk in ("foreign", "both"):
                if hk == "both" and not hsh:
                    c2 = (civ[1], INF) if civ[1] != INF and civ[1] < e else None
                    if c2:
                        rels.append(self.hold("foreign", hsh, (c2[0], c2[0] + 1)))
                else:
                    rels.append(self.hold("foreign", hsh, civ))
            before_fds, before_tab, before = fds(), self.table(), self.file_state()
            key = (what, timeout, delay, hk, hsh, shared, rel, enforced, release)
            if release:
                self.released(key, attempt, rels, what, stream, delay, iv)
            else:
                self.refused(key, attempt, timeout, delay, enforced, limit, what, before_fds, before_tab, before, rels, stream, iv, shared)
        finally:
            rs.set_rsfile_options(default_spinlock_delay=0.1, enforced_locking_timeout_value=None)
            if stream is not None:
                stream.close()
            for c in self.closers:
                c.close()
            self.drop()

    def file_state(self):
        st = os.stat(self.path)
        return (st.st_size, st.st_mtime_ns)

    def timed(self, attempt):
        m = shim.mark()
        t0 = time.monotonic()
        try:
            res, exc = attempt(), None
        except Exception as e:
            res, exc = None, e
        dt = time.monotonic() - t0
        return res, exc, dt, dt, shim.records(m)

    def refused(self, key, attempt, timeout, delay, enforced, limit, what, before_fds, before_tab, before, rels, stream, iv, shared):
        ctx, rs = self.ctx, self.rs
        if shim.mark() > 200000:
            shim.reset()
        target = limit if enforced else timeout
        best, spins = None, None
        # a wait of the size of the spin delay or of a second timeout would be an error; load is filtered by repetition
        allowed = target + delay + 0.02 + 0.25 * target if target else delay * 0.5
        jump = self.rng.choice([0, 0, 3600, -3600, 0.2, -5]) if target else 0
        if jump:
            key += (jump > 0,)
            ctx.count("clock_jumps")
        for rep in range(6):
            with Clock(jump, self.rng.uniform(0, target / 2), target + 4):
                res, exc, dt_long, dt, recs = self.timed(attempt)
            if exc is None:
                ctx.violation("granted", "%s was granted although a conflicting lock is held" % what, key=key)
                if hasattr(res, "close"):
                    res.close()
                return
            good = (type(exc) is RuntimeError or isinstance(exc, RuntimeError)) if enforced else isinstance(exc, rs.LockingException)
            if not good:
                ctx.violation("wrong-exception", "a blocked %s with timeout %s (enforced %s) failed with %r" % (what, timeout, enforced, exc), key=key)
                return
            exc = None
            if dt_long < target - 0.002:
                ctx.violation("too-early", "%s with timeout %s failed after %.4f s" % (what, target, dt_long), key=key)
                return
            n = len(self.attempts_in(recs))
            if n > dt / delay + 3:
                ctx.violation("busy-loop", "%d system lock attempts in %.3f s with a retry delay of %s" % (n, dt, delay), key=key)
                return
            ctx.count("spins_counted", n)
            if target == 0 and not enforced:
                ctx.count("zero_timeouts")
                if n > 1:
                    ctx.violation("zero-retried", "timeout 0 made %d attempts" % n, key=key)
            best = dt if best is None else min(best, dt)
            if best <= allowed:
                break
        if best > allowed:
            ctx.violation("too-late", "%s with timeout %s and retry delay %s failed after %.3f s at best of 6" % (what, target, delay, best), key=key)
        ctx.count("failures")
        if enforced:
            ctx.count("enforced")
        # no trace: lock table, file, descriptors
        tab = self.table()
        if tab != before_tab:
            ctx.violation("trace-lock", "a failed %s changed the lock table from %s to %s" % (what, before_tab, tab), key=key)
        if what != "lock" and self.file_state() != before:
            ctx.violation("trace-file", "a failed %s changed the file" % what, key=key)
        if stream is not None and stream.closed:
            ctx.violation("trace-closed", "a failed lock closed the stream", key=key)
        local = any(not c.closed for c in self.closers)
        if not local:
            gc.collect()
            if fds() != before_fds:
                ctx.violation("trace-fd", "a failed %s leaked descriptors %s" % (what, sorted(set(fds()) ^ set(before_fds))), key=key)
        # a range next to it stays available at once, also for another thread
        # the conflict goes away: the same call succeeds immediately
        for r in rels:
            r()
        for c in self.closers:
            c.close()
        if self.rng.random() < 0.5:
            t = self.timed(attempt)
            if t[1] is not None:
                ctx.violation("still-refused", "the same %s is still refused once the conflict is gone: %r" % (what, t[1]), key=key)
                return
            self.finish(what, t[0], stream)
        if stream is not None:
            stream.close()
        gc.collect()
        a, b, p = self.prober.scan(self.path)
        if a:
            ctx.violation("trace-lock", "locks %s remain after everything has been closed" % a, key=key)
        extra = set(fds()) - set(before_fds)
        if extra:
            ctx.violation("trace-fd", "descriptors %s remain after everything has been closed" % sorted(extra), key=key)
        ctx.case(key, True, sample={"attempt": what, "timeout": timeout, "retry delay": delay, "holder": key[3], "best delay measured": round(best, 4)})

    def finish(self, what, res, stream):
        if what == "lock":
            with res:
                pass
        elif what == "open":
            res.close()

    def released(self, key, attempt, rels, what, stream, delay, iv):
        ctx, rng = self.ctx, self.rng
        wait = rng.choice([0.01, 0.03, 0.08])
        rels = list(rels)
        rng.shuffle(rels)
        t_rel = [None]

        def releaser():
            for r in rels:
                time.sleep(wait)
                t_rel[0] = time.monotonic()
                r()
        best = None
        th = threading.Thread(target=releaser)
        th.start()
        t0 = time.monotonic()
        with Clock(rng.choice([0, 0, 3600, -3600]), rng.uniform(0, wait), 30):
            try:
                res, exc = attempt(), None
            except Exception as e:
                res, exc = None, e
        t1 = time.monotonic()
        th.join()
        if exc is not None:
            ctx.violation("not-granted", "%s with a timeout of seconds failed with %r after %.3f s although the conflict went away" % (what, exc, t1 - t0), key=key)
            return
        if t1 < t_rel[0] - 0.0:
            ctx.violation("granted-early", "%s was granted before the conflict went away" % what, key=key)
        self.finish(what, res, stream)
        ctx.count("granted_after_release")
        ctx.case(key, True)


def adjacent(ctx, rs, prober, foreign):
    """Free ranges are granted at once, whatever timeout, while neighbours are held or waited for."""
    import fcntl
    rng = ctx.rng
    sc = Sc(ctx, rs, prober, foreign)
    sc.make()
    sc.closers = []
    rs.set_rsfile_options(default_spinlock_delay=0.02)
    a = rs.rsopen(sc.path, "r+b", locking=False, thread_safe=False, buffering=0)
    b = rs.rsopen(sc.path, "r+b", locking=False, thread_safe=False, buffering=0)
    foreign.setlk(sc.ffd, fcntl.F_WRLCK, 10, 20)
    done = []

    def waiter():
        try:
            a.lock_file(timeout=rng.choice([0.1, 0.2]), offset=10, length=5)
            done.append("ok")
        except rs.LockingException:
            done.append("refused")
    th = threading.Thread(target=waiter)
    th.start()
    while not done:
        for (s, ln, to) in [(0, 10, 0), (15, 0, 0) if False else (20, None, 0), (5, 5, 0.5), (20, 1, None)]:
            try:
                with b.lock_file(timeout=to, offset=s, length=ln):
                    pass
            except Exception as e:
                ctx.violation("free-refused", "lock of a free range (%s,%s) with timeout %s failed with %r" % (s, ln, to, e))
            ctx.count("adjacent_grants")
        time.sleep(0.002)
    th.join()
    if done[0] != "refused":
        ctx.violation("granted", "lock granted although another process holds the range")
    tab = prober.scan(sc.path)[0]
    if tab != [(10, 20)]:
        ctx.violation("trace-lock", "lock table %s after a timeout, only the other process holds (10, 20)" % tab)
    foreign.setlk(sc.ffd, fcntl.F_UNLCK, 10, 20)
    a.close()
    b.close()
    sc.drop()
    rs.set_rsfile_options(default_spinlock_delay=0.1)


def closing_while_waiting(ctx, rs, prober, foreign):
    """Descriptors and locks left to a pending attempt are released when that attempt times out."""
    import fcntl
    rng = ctx.rng
    sc = Sc(ctx, rs, prober, foreign)
    sc.make()
    rs.set_rsfile_options(default_spinlock_delay=0.01)
    base = fds()
    a = rs.rsopen(sc.path, "r+b", locking=False, thread_safe=False, buffering=0)
    others = [rs.rsopen(sc.path, rng.choice(["rb", "r+b"]), locking=False, thread_safe=False, buffering=0) for _ in range(rng.randrange(1, 4))]
    sh = rng.random() < 0.5
    foreign.setlk(sc.ffd, fcntl.F_WRLCK, 10, 20)
    mine = []
    for o in others:
        if rng.random() < 0.7:
            o.lock_file(timeout=0, offset=0, length=5, shared=True)
            mine.append(o)
    done = []

    def waiter():
        try:
            a.lock_file(timeout=0.12, offset=0 if sh else 8, length=15, shared=sh)
            done.append("ok")
        except rs.LockingException:
            done.append("refused")
    th = threading.Thread(target=waiter)
    th.start()
    time.sleep(0.03)
    for o in others:
        if o in mine and rng.random() < 0.5:
            o.unlock_file(offset=0, length=5)
        o.close()
    th.join()
    if done[0] != "refused":
        ctx.violation("granted", "lock granted although another process holds the range")
    tab = prober.scan(sc.path)[0]
    if tab != [(10, 20)]:
        ctx.violation("trace-lock", "lock table %s after a timeout, only the other process holds (10, 20)" % tab)
    extra = set(fds()) - set(base) - {a.fileno()}
    if extra:
        ctx.violation("trace-fd", "descriptors %s are still open after a timeout although their streams are closed and no lock is held" % sorted(extra))
    foreign.setlk(sc.ffd, fcntl.F_UNLCK, 10, 20)
    a.close()
    ctx.count("pending_cases")
    ctx.case(("pending", len(others), len(mine), sh))
    sc.drop()
    rs.set_rsfile_options(default_spinlock_delay=0.1)


class Stop(BaseException):
    """What a signal handler raises to give up waiting (like KeyboardInterrupt)."""


def relay(ctx, rs, prober, foreign):
    """The conflicts met in turn share one single timeout."""
    import fcntl
    rng = ctx.rng
    sc = Sc(ctx, rs, prober, foreign)
    sc.make()
    enforced = rng.random() < 0.25
    target, delay = rng.choice([0.25, 0.4]), 0.01
    rs.set_rsfile_options(default_spinlock_delay=delay, enforced_locking_timeout_value=target if enforced else None)
    local = [rs.rsopen(sc.path, "r+b", locking=False, thread_safe=False, buffering=0) for _ in range(rng.randrange(1, 4))]
    last = rng.choice(["foreign", "foreign", "local"])
    what = rng.choice(["lock", "lock", "open"])
    st = rs.rsopen(sc.path, "r+b", locking=False, thread_safe=rng.random() < 0.5, buffering=rng.choice([0, -1])) if what == "lock" else None
    if what == "lock":
        attempt = lambda: st.lock_file(timeout=None if enforced else target, offset=0, length=rng.choice([40, None]))
    else:
        attempt = lambda: rs.rsopen(sc.path, "r+b", timeout=None if enforced else target)
    key = ("relay", len(local), last, what, enforced, target)
    best = None
    for rep in range(4):
        holders = [(o, 2 * i) for i, o in enumerate(local)]
        rng.shuffle(holders)
        for o, at in holders:
            o.lock_file(timeout=0, offset=at, length=1)
        steps = holders if last == "foreign" else holders[:-1]
        if last == "foreign":
            assert foreign.setlk(sc.ffd, fcntl.F_WRLCK, 30, 31)
        stop = threading.Event()

        def releaser():
            for o, at in steps:
                stop.wait(0.8 * target / len(steps))
                o.unlock_file(offset=at, length=1)
        th = threading.Thread(target=releaser)
        t0 = time.monotonic()
        th.start()
        exc = None
        try:
            res = attempt()
        except Exception as e:
            exc = e
        dt = time.monotonic() - t0
        stop.set()
        th.join()
        if exc is None:
            ctx.violation("granted", "%s was granted although a conflicting lock is held" % what, key=key)
            break
        if not isinstance(exc, RuntimeError if enforced else rs.LockingException):
            ctx.violation("wrong-exception", "a blocked %s failed with %r" % (what, exc), key=key)
        exc = None
        if dt < target - 0.002:
            ctx.violation("too-early", "%s with timeout %s failed after %.4f s" % (what, target, dt), key=key)
        if last == "foreign":
            foreign.setlk(sc.ffd, fcntl.F_UNLCK, 30, 31)
        else:
            o, at = holders[-1]
            o.unlock_file(offset=at, length=1)
        best = dt if best is None else min(best, dt)
        if best <= target * 1.25 + delay + 0.02:
            break
    else:
        ctx.violation("too-late", "%s with timeout %s, blocked by %d conflicts in turn, failed after %.3f s at best of 4" % (what, target, len(steps) + 1, best), key=key)
    rs.set_rsfile_options(default_spinlock_delay=0.1, enforced_locking_timeout_value=None)
    tab = prober.scan(sc.path)[0]
    if tab and best is not None:
        ctx.violation("trace-lock", "lock table %s after a timeout and the release of all locks" % tab, key=key)
    for o in local:
        o.close()
    if st is not None:
        st.close()
    sc.drop()
    ctx.count("relays")
    ctx.case(key)


def interrupted(ctx, rs, prober, foreign):
    """An attempt given up through an exception raised by a signal handler is a failed attempt: no trace of it."""
    import fcntl, signal
    rng = ctx.rng
    sc = Sc(ctx, rs, prober, foreign)
    sc.make()
    sc.closers = []
    rs.set_rsfile_options(default_spinlock_delay=rng.choice([0.005, 0.02, 0.1]))
    kinds = rng.choice(["foreign", "foreign", "local", "both"])
    what = rng.choice(["lock", "lock", "open", "write", "read"])
    hsh = what not in ("read",) and rng.random() < 0.3
    boom = rng.choice([Stop, KeyboardInterrupt, SystemExit, ZeroDivisionError])
    rels = []
    if kinds in ("local", "both"):
        rels.append(sc.hold("local", hsh, (0, 5)))
    if kinds in ("foreign", "both"):
        iv = (5, 9) if kinds == "both" else (0, 9)
        md = fcntl.F_RDLCK if hsh else fcntl.F_WRLCK
        foreign.setlk(sc.ffd, md, *iv)
        rels.append(lambda: foreign.setlk(sc.ffd, fcntl.F_UNLCK, *iv))
    stream = rs.rsopen(sc.path, "r+b", locking=False, thread_safe=rng.random() < 0.5, buffering=rng.choice([0, -1]))
    timeout = rng.choice([30, None])
    attempt = {"lock": lambda: stream.lock_file(timeout=timeout),
               "open": lambda: rs.rsopen(sc.path, "ab", timeout=timeout, buffering=-1),
               "write": lambda: rs.write_to_file(sc.path, b"new", timeout=timeout),
               "read": lambda: rs.read_from_file(sc.path, binary=True, timeout=timeout)}[what]
    before_fds, before_tab, before = fds(), sc.table(), sc.file_state()
    key = ("interrupted", what, kinds, hsh, boom.__name__, timeout)

    def handler(*_):
        raise boom("given up")
    old = signal.signal(signal.SIGALRM, handler)
    got = None
    try:
        signal.setitimer(signal.ITIMER_REAL, rng.uniform(0.02, 0.08))
        try:
            res = attempt()
            got = res
            if hasattr(res, "close") and what == "open":
                res.close()
        except BaseException as e:
            got = type(e)
            if got is not boom:
                raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    try:
        if got is not boom:
            ctx.violation("granted", "%s was granted although a conflicting lock is held" % what, key=key)
            return
        ctx.count("interrupted")
        tab = sc.table()
        if tab != before_tab:
            ctx.violation("trace-lock", "an interrupted %s changed the lock table from %s to %s" % (what, before_tab, tab), key=key)
        if what != "lock" and sc.file_state() != before:
            ctx.violation("trace-file", "an interrupted %s changed the file" % what, key=key)
        if kinds == "foreign":
            gc.collect()
            extra = set(fds()) - set(before_fds)
            if extra and what == "lock":
                ctx.violation("trace-fd", "an interrupted %s leaked descriptors %s" % (what, sorted(extra)), key=key)
        for r in rels:
            r()
        # the other streams of the process first, then the one which gave up
        again = rs.rsopen(sc.path, "r+b", locking=False, thread_safe=False, buffering=0)
        for (o, name) in ([(again, "another stream"), (stream, "the stream which gave up")]):
            try:
                with o.lock_file(timeout=0, shared=False):
                    pass
            except rs.LockingException as e:
                ctx.violation("still-refused", "after an interrupted %s, a lock by %s is refused although nobody holds anything: %r" % (what, name, e), key=key)
        again.close()
    finally:
        stream.close()
        for c in sc.closers:
            c.close()
        rs.set_rsfile_options(default_spinlock_delay=0.1)
    gc.collect()
    a, b, p = prober.scan(sc.path)
    if a:
        ctx.violation("trace-lock", "locks %s remain after everything has been closed" % a, key=key)
    extra = set(fds()) - set(before_fds)
    if extra:
        ctx.violation("trace-fd", "descriptors %s remain after everything has been closed" % sorted(extra), key=key)
    ctx.case(key)
    sc.drop()


def run(ctx):
    prober, foreign = locks.Helper(), locks.Helper()
    Clock.install()
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    sc = Sc(ctx, rs, prober, foreign)
    n = 0
    while ctx.more(n, 20, 100000):
        ctx.crumb("case %d" % n)
        sc.one()
        if n % 8 == 0:
            adjacent(ctx, rs, prober, foreign)
        if n % 4 == 1:
            closing_while_waiting(ctx, rs, prober, foreign)
        if n % 4 == 2:
            relay(ctx, rs, prober, foreign)
        if n % 4 == 3:
            interrupted(ctx, rs, prober, foreign)
        n += 1
    prober.stop()
    foreign.stop()
