"""C13: a rejected open leaves nothing behind."""
import gc, errno, fcntl, io, multiprocessing, os, signal, struct, threading, time, traceback, warnings
from lib import vf, shim, locks
from checks.c09 import RecMutex

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring with fault injection: each open is refused by bad arguments, conflicts, signals, openers, or by making each of its system calls fail in turn, and "
             "monitors compare descriptors, kernel locks (seen by another process), the mutex and the files before and after")
NOTE = "Sampled combinations of arguments and causes; each system call that the open really issues is made to fail once in each sampled configuration."
RULE = ("one refused open; distinct by (cause, mode, buffering class, origin, locking, thread-safety, exception, failing call and its rank); non-trivial when the open was refused.")
BUDGET = {"quick": 11, "thorough": 180}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"refused": 1500, "injected": 600, "conflicts": 100, "reopened": 800, "openers": 100, "interrupted": 8, "fileio": 200}


def shards(tier, seed):
    return [("r%d" % i, {"i": i}) for i in range(8)]


MODES = ["r", "rb", "r+", "r+b", "w", "wb", "w+b", "a", "ab", "a+b", "RNB", "RWB", "WEB", "RWE", "AB", "RA", "RAEB", "RWIB", "WSB", "AEB", "RI"]
NEW = ["x", "xb", "x+b", "WCB", "RWCB", "RCB"]
ERRORS = [errno.EIO, errno.ENOMEM, errno.EACCES, errno.EINVAL, errno.ENOSPC, errno.EBADF, errno.EPERM, errno.EMFILE, errno.ENOLCK]


def fds():
    out = {}
    d = os.open("/proc/self/fd", os.O_RDONLY | os.O_DIRECTORY)
    try:
        for n in os.listdir(d):
            if int(n) != d:
                try:
                    out[int(n)] = os.readlink("/proc/self/fd/" + n)
                except OSError:
                    pass
    finally:
        os.close(d)
    return out


class Odd(Exception):
    pass


class Work:
    def __init__(self, ctx, rs, prober, foreign):
        self.ctx, self.rs, self.rng, self.prober, self.foreign = ctx, rs, ctx.rng, prober, foreign

    def fail(self, mech, msg):
        self.ctx.violation(mech, "%s [%s]" % (msg, self.what))
        raise Odd()

    def make(self, size=20):
        p = self.ctx.fresh("e")
        fd = os.open(p, os.O_CREAT | os.O_WRONLY, 0o644)
        os.write(fd, b"precious content....."[:size])
        os.close(fd)
        return p

    def snapshot(self, p):
        st = os.stat(p) if os.path.lexists(p) else None
        return st and (st.st_size, st.st_mtime_ns, st.st_ino, st.st_mode)

    def args(self, mode):
        rng = self.rng
        binary = "b" in mode.lower()
        kw = dict(locking=rng.random() < 0.7, thread_safe=rng.random() < 0.6, buffering=rng.choice([-1, -1, 16] + ([0, 0] if binary else [1])))
        if kw["locking"]:
            kw["timeout"] = rng.choice([0, 0, 0.01])
        if kw["thread_safe"] and rng.random() < 0.4:
            kw["mutex"] = RecMutex()
        return kw

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as e:
            if self.rng.random() < 0.5:
                # the traceback keeps frames, hence half-made streams, alive
                e.__traceback__ = None
                e.__context__ = None
            else:
                self.ctx.count("handled_alive")
            return None, e

    def clean(self, before, p, snap, kw, may_change=False, pending=False, exc=None):
        """Nothing is left."""
        self.ctx.count("refused")
        if not pending:
            after = fds()
            if after != before:
                extra = {k: v for k, v in after.items() if before.get(k) != v}
                lost = {k: v for k, v in before.items() if after.get(k) != v}
                for k in extra:
                    if k not in before:
                        os.close(k)
                self.fail("descriptor" if extra else "descriptor-closed", "after a refused open (%r), descriptors %s" % (exc, "are left: %s" % extra if extra else "of others are closed: %s" % lost))
        mx = kw.get("mutex")
        if mx is not None and mx.depth:
            self.fail("mutex", "after a refused open (%r) the mutex is still held" % exc)
        if p is not None and snap is not None and not may_change and self.snapshot(p) != snap:
            self.fail("file-changed", "a refused open (%r) changes the file" % exc)

    def unlocked(self, p, mine=None):
        if not os.path.exists(p):
            return
        anyl, exl, pids = self.prober.scan(p)
        if anyl and os.getpid() in pids:
            self.fail("lock", "after a refused open the process still holds locks: %s" % (anyl,))

    def again(self, p, mode, kw, name=None, new=False):
        kw = dict(kw)
        if new and os.path.exists(p):
            os.unlink(p)
        s, e = self.attempt(lambda: self.rs.rsopen(p if name is None else name, mode, **kw))
        if e is not None:
            self.fail("again", "the same open, without the cause, is still refused by %r" % e)
        s.close()
        self.ctx.count("reopened")

    # --- causes
    def injected(self):
        """Make each system call of the open fail in turn."""
        ctx, rng = self.ctx, self.rng
        new = rng.random() < 0.15
        mode = rng.choice(NEW if new else MODES)
        kw = self.args(mode)
        origin = rng.choice(["path", "path", "path", "fileno", "opener"]) if not new else rng.choice(["path", "opener"])
        closefd = rng.random() < 0.5
        fileio = mode.islower() and "t" not in mode and rng.random() < 0.4  # the class put in place of io.FileIO
        if fileio:
            from rsfile.rsfile_utilities import RSFileIOWrapper
            kw = dict(locking=False, thread_safe=False, buffering=0 if "b" in mode else -1)
        self.what = "mode %r %r origin %s" % (mode, {k: v for k, v in kw.items() if k != "mutex"}, origin)
        t = dict(r="r" in mode or "+" in mode or "R" in mode, w=any(c in mode for c in "wax+WA"), a="a" in mode or "A" in mode)
        size = rng.choice([0, 20])
        p = self.make(size)
        if new:
            os.unlink(p)
        fd = None

        def go():
            k = dict(kw)
            if fileio:
                ctx.count("fileio")
                return RSFileIOWrapper(fd if origin == "fileno" else p, mode, *((closefd,) if origin == "fileno" else ()),
                                       **({"opener": lambda n, fl: os.open(n, fl, 0o600)} if origin == "opener" else {}))
            if origin == "opener":
                k["opener"] = lambda n, fl: os.open(n, fl, 0o600)
            if origin == "fileno":
                return self.rs.rsopen(None, mode, fileno=fd, closefd=closefd, **k)
            return self.rs.rsopen(p, mode, **k)

        def wrapped():
            nonlocal fd
            if origin == "fileno":
                fd = os.open(p, {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(t["r"], t["w"])] | (os.O_APPEND if t["a"] else 0))
        tid = shim.lib().vs_tid()
        for call in rng.sample([shim.OPEN, shim.FSTAT, shim.IOCTL, shim.FCNTL, shim.FTRUNC, shim.LSEEK, shim.CLOSE], 3) + [shim.FCNTL]:
            for rank in range(12):
                if new and os.path.exists(p):
                    os.unlink(p)
                if not new and os.path.getsize(p) != size:
                    fd0 = os.open(p, os.O_WRONLY | os.O_TRUNC)
                    os.write(fd0, b"precious content....."[:size])
                    os.close(fd0)
                wrapped()
                before = fds()
                snap = self.snapshot(p)
                en = rng.choice(ERRORS)
                rule = shim.Rule(call, shim.ERR if call != shim.CLOSE else shim.ERR_AFTER, en, skip=rank, count=rng.choice([1, 1, -1]), tid=tid)
                try:
                    s, e = self.attempt(go)
                    hit = rule.hits()
                finally:
                    rule.clear()
                if s is not None:
                    s.close()
                ctx.case(("inject", call, rank, mode, origin, kw["locking"], type(e).__name__), e is not None,
                         sample={"call": shim.NAMES.get(call, call), "rank": rank, "errno": en, "open": self.what, "exception": repr(e)})
                if hit:
                    ctx.count("injected")
                try:
                    if e is not None:
                        if not hit:
                            self.fail("spurious", "the open is refused by %r without a cause" % e)
                        if not isinstance(e, (OSError, ValueError)):
                            self.fail("exception", "a failing system call (%s) is reported by %r" % (shim.NAMES.get(call, call), e))
                        if origin == "fileno":
                            # with closefd=True the descriptor may or may not have been taken over
                            live = fds()
                            if not closefd and live.get(fd) != before[fd]:
                                self.fail("descriptor-closed", "the descriptor of the caller is closed by a refused open (%r)" % e)
                            if fd not in live:
                                before.pop(fd)
                        # a truncation performed under the lock may have taken effect
                        self.clean(before, p, snap, kw, may_change="w" in mode or "E" in mode, exc=e)
                        self.unlocked(p)
                        if origin != "fileno":
                            extra = {} if origin == "path" else {"opener": lambda n, fl: os.open(n, fl, 0o600)}
                            self.again(p, mode, dict(kw, **extra), new=new)
                    if e is not None:
                        # what happens to the descriptor is settled once and for all when the exception is raised
                        live = fds()
                        e = None
                        gc.collect(0)
                        if fds() != live:
                            self.fail("descriptor-late", "descriptors of a refused open get closed when the exception is forgotten: %s" % sorted(set(live) - set(fds())))
                except Odd:
                    pass
                e = None
                if fd is not None:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                    fd = None
                if not hit:
                    break
        if os.path.exists(p):
            os.unlink(p)

    def conflict(self):
        """Refused because of locks of others: another process, or another stream of this process."""
        ctx, rng, rs = self.ctx, self.rng, self.rs
        mode = rng.choice(MODES)
        kw = self.args(mode)
        kw["locking"] = True
        kw["timeout"] = rng.choice([0, 0, 0.01, 0.02])
        p = self.make()
        how = rng.choice(["foreign", "own", "own", "enforced"])
        self.what = "mode %r %r, conflict %s" % (mode, {k: v for k, v in kw.items() if k != "mutex"}, how)
        before = fds()
        other = hfd = None
        if how in ("foreign", "enforced"):
            hfd = self.foreign.call("open", p)
            lo = rng.choice([0, 5, 2 ** 32])
            assert self.foreign.setlk(hfd, fcntl.F_WRLCK, lo, rng.choice([lo + 1, locks.INF]))
        else:
            other = rs.rsopen(p, "r+b", locking=False, buffering=0)
            other.lock_file(timeout=0, offset=rng.choice([0, 7]), length=rng.choice([None, 3]))
        base = fds()
        locked = self.prober.scan(p)
        snap = self.snapshot(p)
        old = rs.get_rsfile_options()
        origin = rng.choice(["path", "path", "fileno", "opener"])
        fd, call = None, dict(kw)
        name = p
        if origin == "fileno":
            t = dict(r="r" in mode or "+" in mode or "R" in mode, w=any(c in mode for c in "wax+WA"), a="a" in mode or "A" in mode)
            fd = os.open(p, {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(t["r"], t["w"])])
            base = fds()
            call.update(fileno=fd, closefd=False)
            name = None
        elif origin == "opener":
            call["opener"] = lambda n, fl: os.open(n, fl)
        if how == "enforced":
            rs.set_rsfile_options(enforced_locking_timeout_value=0.02, default_spinlock_delay=0.005)
            call["timeout"] = None
        else:
            rs.set_rsfile_options(default_spinlock_delay=0.003)
        try:
            s, e = self.attempt(lambda: rs.rsopen(name, mode, **call))
        finally:
            rs.set_rsfile_options(**old)
        ctx.count("conflicts")
        ctx.case(("conflict", mode, how, origin, kw["timeout"], type(e).__name__))
        try:
            if s is not None:
                s.close()
                self.fail("granted", "a conflicting open is granted")
            if not isinstance(e, RuntimeError if how == "enforced" else rs.LockingException):
                self.fail("exception", "a conflicting open raises %r" % e)
            # a descriptor may have to stay open as long as the process holds locks on that file
            self.clean(base, p, snap, kw, pending=other is not None, exc=e)
            if self.prober.scan(p) != locked:
                self.fail("lock", "the locks are %s after the refused open, %s before" % (self.prober.scan(p), locked))
            if other is not None:
                other.unlock_file(length=None, offset=0) if False else other.close()
                after = fds()
                want = dict(before)
                if fd is not None:
                    want[fd] = base[fd]
                if after != want:
                    self.fail("descriptor", "once all is closed, descriptors are left: %s" % {k: v for k, v in after.items() if want.get(k) != v})
            else:
                self.foreign.call("close", hfd)
                hfd = None
            self.unlocked(p)
            self.again(p, mode, kw)
        except Odd:
            pass
        if hfd is not None:
            self.foreign.call("close", hfd)
        if other is not None:
            other.close()
        if fd is not None:
            os.close(fd)
        os.unlink(p)

    def bad_arguments(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        mode = rng.choice(MODES)
        binary = "b" in mode.lower()
        p = self.make()
        kw = self.args(mode)
        origin = rng.choice(["path", "path", "fileno", "handle", "opener"])
        fd, name, call = None, p, {}
        late = False
        if origin in ("fileno", "handle"):
            fd = os.open(p, os.O_RDWR)
            name = None
            call = {origin: fd, "closefd": False}
        elif origin == "opener":
            call = {"opener": lambda n, fl: os.open(n, fl)}
        bad = rng.choice(["mode", "mode-type", "buffering", "encoding", "encoding-name", "errors", "newline", "unbuffered-text", "mutex", "timeout", "timeout-neg", "two-sources", "closefd", "name", "warning",
                          "unknown", "mplock", "permissions", "opener+fd"])
        m2, k2 = mode, dict(kw)
        expect = (ValueError, TypeError, LookupError)
        if bad == "mode":
            m2 = rng.choice([mode + "?", mode + mode[0], "q", "", mode.lower() + "R", "CN" + mode if mode.isupper() else "x" + mode, "BT" + mode if mode.isupper() else "bt" + mode, "B", "b", "E", "ERB"])
            if origin == "opener":
                expect += (OSError,)  # the opener is called first, with contradictory flags
        elif bad == "mode-type":
            m2 = rng.choice([None, 5, b"r"])
        elif bad == "buffering":
            k2["buffering"] = rng.choice(["x", 1.5, True])
        elif bad == "encoding":
            k2["encoding"] = rng.choice([5, b"utf8"]) if not binary else "utf8"
        elif bad == "encoding-name":
            if binary:
                return self.skip(p, fd)
            k2["encoding"] = rng.choice(["no-such-codec", "hex", "rot13"])
            late = True
        elif bad == "errors":
            k2["errors"] = 5 if not binary else "strict"
        elif bad == "newline":
            k2["newline"] = rng.choice(["x", 5]) if not binary else "\n"
            late = not binary
        elif bad == "unbuffered-text":
            if binary:
                return self.skip(p, fd)
            k2["buffering"] = 0
            late = True
        elif bad == "mutex":
            k2.update(thread_safe=False, mutex=RecMutex())
        elif bad == "timeout":
            k2.update(locking=True, timeout=rng.choice(["x", [], 1j]))
        elif bad == "timeout-neg":
            k2.update(locking=True, timeout=rng.choice([-1, -0.5]))
        elif bad == "two-sources":
            call = dict(call, **rng.choice([{"fileno": 12345, "handle": 12345}, {"fileno": 12345}]))
            if origin != "path" and ("fileno" in call) != ("handle" in call):
                call["handle"] = 12345
            if origin == "opener":
                call.pop("opener")
        elif bad == "closefd":
            if origin in ("fileno", "handle"):
                return self.skip(p, fd)
            call["closefd"] = False
        elif bad == "name":
            if origin != "path":
                return self.skip(p, fd)
            name = rng.choice([True, 1.5, None, -1, p + "\0x", [p], 2 ** 70])
            expect = (ValueError, TypeError, OSError, OverflowError)
        elif bad == "warning":
            if not binary:
                return self.skip(p, fd)
            k2["buffering"] = 1
            expect = RuntimeWarning
        elif bad == "unknown":
            k2["nothing"] = 1
        elif bad == "mplock":
            m2 = rng.choice(["RIB", "RWIB", "AI"])
            if origin != "path":
                return self.skip(p, fd)
            k2 = dict(locking=rng.random() < 0.5, thread_safe=True, timeout=0)
            expect = OSError
        elif bad == "permissions":
            if origin != "path":
                return self.skip(p, fd)
            k2["permissions"] = rng.choice(["x", None, 1.5])
        elif bad == "opener+fd":
            if origin not in ("fileno", "handle"):
                return self.skip(p, fd)
            call["opener"] = lambda n, fl: os.open(p, os.O_RDWR)
            if origin == "handle":
                return self.skip(p, fd)
        self.what = "mode %r %r origin %s, bad %s" % (m2, {k: v for k, v in k2.items() if k != "mutex"}, origin, bad)
        before, snap = fds(), self.snapshot(p)
        real = multiprocessing.RLock
        with warnings.catch_warnings():
            if bad == "warning":
                warnings.simplefilter("error")
            if bad == "mplock":
                def nolock(*a, **k):
                    raise OSError(errno.ENOSPC, "no more semaphores")
                multiprocessing.RLock = nolock
            try:
                s, e = self.attempt(lambda: rs.rsopen(name, m2, **dict(k2, **call)))
            finally:
                multiprocessing.RLock = real
        if s is not None:
            s.close()
        ctx.case(("bad", bad, m2, origin, type(e).__name__), e is not None)
        try:
            if e is None and bad in ("permissions", "mplock", "warning", "unknown"):
                ctx.count("tolerated")
            elif not isinstance(e, expect):
                self.fail("exception", "the open gives %r" % (e or "a stream"))
            else:
                self.clean(before, p, snap, k2, may_change=late and ("w" in mode or "E" in mode), exc=e)
                self.unlocked(p)
                if origin == "path":
                    self.again(p, mode, kw)
        except Odd:
            pass
        self.skip(p, fd)

    def skip(self, p, fd):
        if fd is not None:
            try:
                os.close(fd)
            except OSError:
                pass
        if os.path.exists(p):
            os.unlink(p)

    def openers(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        mode = rng.choice(MODES)
        kw = self.args(mode)
        p = self.make()
        kind = rng.choice(["raises", "minus", "string", "none", "closed-fd", "directory", "wrong-access", "pipe", "float", "huge"])
        got = []
        mine = None

        def opener(name, flags):
            nonlocal mine
            if kind == "raises":
                raise KeyError("opener")
            if kind == "minus":
                return -1
            if kind == "string":
                return "x"
            if kind == "none":
                return None
            if kind == "float":
                return 2.5
            if kind == "huge":
                return 2 ** 40
            if kind == "closed-fd":
                fd = os.open(p, os.O_RDONLY)
                os.close(fd)
                return fd
            if kind == "directory":
                fd = os.open(os.path.dirname(p), os.O_RDONLY)
            elif kind == "pipe":
                fd, w = os.pipe()
                os.close(w)
            else:
                fd = os.open(p, os.O_RDONLY if any(c in mode for c in "wax+WA") else os.O_WRONLY)
            got.append(fd)
            return fd
        self.what = "mode %r %r, opener %s" % (mode, {k: v for k, v in kw.items() if k != "mutex"}, kind)
        before, snap = fds(), self.snapshot(p)
        s, e = self.attempt(lambda: rs.rsopen(p, mode, opener=opener, **kw))
        if s is not None:
            try:
                s.close()
            except Exception:
                pass
        ctx.count("openers")
        ctx.case(("opener", kind, mode, type(e).__name__, kw["locking"]), e is not None)
        try:
            if e is None and kind not in ("wrong-access", "pipe"):
                self.fail("accepted", "the open is accepted")
            if kind == "raises" and not isinstance(e, KeyError):
                self.fail("exception", "the exception of the opener becomes %r" % e)
            self.clean(before, p, snap, kw, may_change=False, exc=e)
            self.unlocked(p)
            self.again(p, mode, kw)
        except Odd:
            pass
        os.unlink(p)

    def missing(self):
        ctx, rng, rs = self.ctx, self.rng, self.rs
        mode = rng.choice(MODES)
        kw = self.args(mode)
        d = ctx.fresh("dir")
        os.mkdir(d)
        kind = rng.choice(["missing", "directory", "nodir", "notdir", "loop", "exists", "long", "rofs-dir"])
        f = os.path.join(d, "f")
        again = None
        if kind == "missing":
            mode, name = rng.choice(["r", "r+b", "RNB", "RWN"]), f
        elif kind == "directory":
            name = d
        elif kind == "nodir":
            name = os.path.join(d, "no", "f")
        elif kind == "notdir":
            open(f, "w").close()
            name = os.path.join(f, "g")
        elif kind == "loop":
            os.symlink("f", f)
            name = f
        elif kind == "exists":
            open(f, "w").write("precious")
            mode, name = rng.choice(NEW), f
        elif kind == "long":
            name = os.path.join(d, "n" * 300)
        else:
            name = rng.choice(["/proc/version", "/proc/self/nothing"])
            mode = rng.choice(["x", "WCB", "RWC"])
        if "b" not in mode.lower():
            kw["buffering"] = -1
        self.what = "mode %r %r, path %s" % (mode, {k: v for k, v in kw.items() if k != "mutex"}, kind)
        before, snap, names = fds(), self.snapshot(name) if kind == "exists" else None, sorted(os.listdir(d))
        s, e = self.attempt(lambda: rs.rsopen(name, mode, **kw))
        if s is not None:
            s.close()
        ctx.case(("path", kind, mode, type(e).__name__, kw["locking"]))
        try:
            if not isinstance(e, OSError):
                self.fail("exception", "the open gives %r" % (e or "a stream"))
            self.clean(before, name, snap, kw, exc=e)
            if sorted(os.listdir(d)) != names:
                self.fail("created", "the refused open changes the directory")
            if kind == "missing":
                open(f, "w").close()
                self.again(f, mode, kw)
            elif kind == "exists":
                os.unlink(f)
                self.again(f, mode, kw)
            elif kind == "nodir":
                os.mkdir(os.path.join(d, "no"))
                if any(c in mode for c in "rN"):
                    open(name, "w").close()
                self.again(name, mode, kw)
        except Odd:
            pass
        import shutil
        shutil.rmtree(d)

    def interrupted(self):
        """A signal handler raises while the open waits for its lock."""
        ctx, rng, rs = self.ctx, self.rng, self.rs
        mode = rng.choice(MODES)
        kw = self.args(mode)
        kw.update(locking=True, timeout=None)
        p = self.make()
        self.what = "mode %r %r, interrupted" % (mode, {k: v for k, v in kw.items() if k != "mutex"})
        hfd = self.foreign.call("open", p)
        assert self.foreign.setlk(hfd, fcntl.F_WRLCK, 3, 9)
        before, snap = fds(), self.snapshot(p)
        ino = os.stat(p).st_ino
        main = threading.get_ident()
        sent = []

        class Alarm(rng.choice([Exception, BaseException, KeyboardInterrupt, SystemExit])):
            pass

        def handler(*a):
            raise Alarm()

        def watcher():
            end = time.monotonic() + 20
            key = ":%d " % ino
            while time.monotonic() < end:
                with open("/proc/locks") as f:
                    if any("->" in l and key in l and " %d " % os.getpid() in l for l in f):
                        break
                time.sleep(0.0005)
            else:
                sent.append("timeout")
            signal.pthread_kill(main, signal.SIGUSR1)
        old = signal.signal(signal.SIGUSR1, handler)
        th = threading.Thread(target=watcher)
        th.start()
        try:
            s, e = self.attempt(lambda: rs.rsopen(p, mode, **kw))
        except Alarm as x:
            s, e = None, x  # alive, with its traceback
        th.join()
        signal.signal(signal.SIGUSR1, old)
        exc, e = e, e and type(e).__name__
        try:
            if sent:
                raise vf.Inconclusive("the blocked open was never seen in /proc/locks")
            if s is not None:
                s.close()
                self.fail("granted", "a conflicting open is granted")
            if e != "Alarm":
                self.fail("exception", "the exception of a signal handler becomes %s" % e)
            ctx.count("interrupted")
            ctx.case(("interrupted", mode))
            self.clean(before, p, snap, kw, exc=e)
            self.foreign.call("close", hfd)
            hfd = None
            self.unlocked(p)
            self.again(p, mode, kw)
        except Odd:
            pass
        if hfd is not None:
            self.foreign.call("close", hfd)
        os.unlink(p)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    prober, foreign = locks.Helper(), locks.Helper()
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    w = Work(ctx, rs, prober, foreign)
    n = 0
    while ctx.more(n, 100, 10 ** 6):
        ctx.crumb("case %d" % n)
        k = n % 12
        if k < 2:
            w.injected()
        elif k < 5:
            w.conflict()
        elif k < 8:
            w.bad_arguments()
        elif k < 10:
            w.openers()
        elif k == 10:
            w.missing()
        elif n % 48 == 11:
            w.interrupted()
        n += 1
    prober.stop()
    foreign.stop()
