"""C06: opening never damages a file it has not locked."""
import errno, fcntl, gc, os, pathlib, signal, threading, time
from lib import vf, shim, locks
from lib.locks import INF

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: system-call log ordering (exclusive whole-file lock before any truncation, no O_TRUNC), and file state sampled "
             "by other processes before, during and after blocked, failing and succeeding opens")
NOTE = "Sampled scenarios; every system call of every open is judged on the recorded log, the state of the file through stat and another process."
RULE = ("an open (or whole-file helper, or wrapping of a descriptor) in one mode, layer and path form against a file whose lock is free, held by "
        "another process, by another stream of this process or both, kept or released during the wait, or made to fail by an injected error or "
        "a signal; distinct by (scenario, mode, holder, form, outcome); non-trivial when the file was non-empty.")
BUDGET = {"quick": 11, "thorough": 200}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"refused": 300, "waits_observed": 40, "granted_truncations": 100, "wraps": 200, "injected": 60, "interrupted": 10, "replaced": 10, "fd0": 8, "raced": 80}

TRUNC = ["w", "w+", "WE", "RWE", "AE", "RAE", "WEN", "RWEN", "EW", "W E".replace(" ", "")]
KEEP = ["r+", "a", "a+", "W", "RW", "A", "RA", "RWN", "WN", "r", "R", "RN"]


def shards(tier, seed):
    return [("o%d" % i, {"i": i}) for i in range(8)]


class Bad(Exception):
    pass


class Sc:
    def __init__(self, ctx, rs, prober, foreign):
        self.ctx, self.rs, self.prober, self.foreign, self.rng = ctx, rs, prober, foreign, ctx.rng

    def make(self, data=None):
        self.path = self.ctx.fresh("c")
        self.data = data if data is not None else bytes(self.rng.randrange(256) for _ in range(self.rng.choice([1, 5, 100, 4096, 9000])))
        with open(self.path, "wb") as f:
            f.write(self.data)
        os.utime(self.path, ns=(10**18 + 5, 10**18 + 7))
        os.link(self.path, self.path + ".l")
        os.symlink(self.path, self.path + ".s")
        self.ino = os.stat(self.path).st_ino
        self.ffd = self.foreign.call("open", self.path)
        self.base = self.state()

    def drop(self):
        self.foreign.call("close", self.ffd)
        for n in (self.path, self.path + ".l", self.path + ".s"):
            try:
                os.unlink(n)
            except OSError:
                pass

    def state(self, path=None):
        st = os.stat(path or self.path)
        return (st.st_size, st.st_mtime_ns, st.st_ino)

    def content(self, path=None):
        return self.prober.call("read", path or self.path)  # (the other one would lose its locks)

    def same(self, what, key, path=None):
        s = self.state(path)
        if s != self.base:
            self.ctx.violation("changed:" + what, "%s changed the file: (size, mtime, inode) %s -> %s" % (what, self.base, s), key=key)
            return False
        if self.content(path) != self.data:
            self.ctx.violation("changed:" + what, "%s changed the content of the file" % what, key=key)
            return False
        return True

    def opener(self, truncating=None):
        """An opening call of random form; returns (description, callable(timeout))."""
        rng, rs = self.rng, self.rs
        trunc = rng.random() < 0.75 if truncating is None else truncating
        mode = rng.choice(TRUNC if trunc else KEEP)
        std = mode == mode.lower()
        bin_ = rng.random() < 0.6
        mode += ("b" if std else "B") if bin_ else ("" if rng.random() < 0.5 else "t" if std else "T")
        kw = dict(mode=mode, thread_safe=rng.random() < 0.5)
        if rng.random() < 0.6:
            kw["buffering"] = rng.choice([-1, 0, 16, 5000]) if bin_ else rng.choice([-1, 1, 16])
        path = rng.choice([self.path, self.path + ".l", self.path + ".s", os.path.relpath(self.path)])
        form = rng.choice(["str", "str", "bytes", "pathlib", "opener"])
        name = {"bytes": os.fsencode(path), "pathlib": pathlib.Path(path)}.get(form, path)
        if form == "opener":
            kw["opener"] = lambda p, flags: os.open(p, flags, 0o666)
        if rng.random() < 0.5:
            kw["locking"] = True
        shared = not any(c in mode for c in "waWA+") and "W" not in mode

        def go(timeout="none"):
            k = dict(kw)
            if timeout != "none":
                k["timeout"] = timeout
            return rs.rsopen(name, **k)
        return (mode, form, os.path.basename(path)[-2:], kw.get("buffering"), kw["thread_safe"]), go, trunc, shared

    def helper(self):
        rng, rs = self.rng, self.rs
        h = rng.choice(["write", "append", "write-text", "write-n", "read"])
        if h == "write":
            f = lambda **k: rs.write_to_file(self.path, b"replaced", **k)
        elif h == "write-text":
            f = lambda **k: rs.write_to_file(self.path, "replaced", sync=rng.random() < 0.2, **k)
        elif h == "write-n":
            f = lambda **k: rs.write_to_file(self.path, b"replaced", must_not_create=True, buffering=rng.choice([None, 0]), **k)
        elif h == "read":
            f = lambda **k: rs.read_from_file(self.path, binary=True, **k)
        else:
            f = lambda **k: rs.append_to_file(self.path, b"more", **k)
        return (h,), lambda timeout="none": f(**({} if timeout == "none" else {"timeout": timeout})), h.startswith("write"), h == "read"

    def hold(self, shared):
        rng = self.rng
        kind = rng.choice(["foreign", "foreign", "local"])
        iv = rng.choice([(0, INF), (0, 1), (3, 4), (10**6, 10**6 + 1), (2**40, INF)])
        sh = False if shared else rng.random() < 0.5
        if kind == "foreign":
            assert self.foreign.setlk(self.ffd, fcntl.F_RDLCK if sh else fcntl.F_WRLCK, *iv)
            return (kind, sh, iv), lambda: self.foreign.setlk(self.ffd, fcntl.F_UNLCK, *iv)
        st = self.rs.rsopen(self.path, "rb" if sh else "r+b", locking=False, buffering=rng.choice([0, -1]), thread_safe=False)
        st.lock_file(timeout=0, offset=iv[0], length=None if iv[1] == INF else iv[1] - iv[0])
        return (kind, sh, iv), st.close

    def judge_log(self, recs, what, key):
        """No truncation by any route without the exclusive lock on the whole file."""
        pid = os.getpid()
        locked = False
        for r in recs:
            if r.pid != pid:
                continue
            if r.call == shim.OPEN and r.ino == self.ino and (r.a & os.O_TRUNC):
                self.ctx.violation("o-trunc", "%s opened an existing file with O_TRUNC" % what, key=key, log=[repr(x) for x in recs[-30:]])
            if r.ino != self.ino:
                continue
            self.ctx.count("log_events")
            if r.call == shim.FCNTL and r.x1 in (6, 7) and r.ret == 0:
                if r.x2 == 1 and r.a == 0 and r.b == 0:
                    locked = True
                elif r.x2 == 2 and r.a == 0:
                    locked = False
                elif r.x2 == 0 and r.a == 0 and r.b == 0:
                    locked = False
            if r.call == shim.FTRUNC and not locked and r.inj == 0:
                self.ctx.violation("truncated-unlocked", "%s truncated the file before its exclusive lock was held" % what, key=key,
                                   log=[repr(x) for x in recs[-30:]])
                return

    def fails(self, go, timeout):
        try:
            r = go(timeout)
        except self.rs.LockingException as e:
            return "locking"
        except Exception as e:
            return e
        if hasattr(r, "close"):
            r.close()
        return None


def refused(sc):
    ctx, rng = sc.ctx, sc.rng
    sc.make()
    desc, go, trunc, shared = sc.opener() if rng.random() < 0.75 else sc.helper()
    hk, rel = sc.hold(shared)
    if hk[1] and shared:
        rel()
        sc.drop()
        return
    key = ("refused", desc, hk)
    enforced = rng.random() < 0.15
    if enforced:
        sc.rs.set_rsfile_options(enforced_locking_timeout_value=0.02)
    sc.rs.set_rsfile_options(default_spinlock_delay=0.01)
    m = shim.mark()
    try:
        if enforced:
            try:
                r = go(None)
                out = None
            except RuntimeError:
                out = "locking"
        else:
            out = sc.fails(go, rng.choice([0, 0, 0, 0.02]))
    finally:
        sc.rs.set_rsfile_options(enforced_locking_timeout_value=None, default_spinlock_delay=0.1)
    if out != "locking":
        ctx.violation("not-refused", "the open should have been refused for its lock, got %r" % (out,), key=key)
    sc.same("a refused open", key)
    sc.judge_log(shim.records(m), "a refused open", key)
    rel()
    gc.collect()
    sc.same("the end of a refused open", key)
    ctx.count("refused")
    ctx.case(key, len(sc.data) > 0, sample={"open": repr(desc), "holder": repr(hk)})
    sc.drop()


def waits(sc):
    """Blocked open: nothing changes meanwhile; afterwards the truncation takes place on the right file."""
    ctx, rng = sc.ctx, sc.rng
    sc.make()
    desc, go, trunc, shared = sc.opener() if rng.random() < 0.8 else sc.helper()
    hk, rel = sc.hold(shared)
    if hk[1] and shared:
        rel()
        sc.drop()
        return
    replace = rng.random() < 0.25 and desc[0] not in ("read",)
    holder_writes = hk[0] == "foreign" and rng.random() < 0.3
    key = ("wait", desc, hk, replace, holder_writes)
    sc.rs.set_rsfile_options(default_spinlock_delay=0.004)
    out = []
    m = shim.mark()
    timeout = rng.choice(["none", None, 30])

    def run():
        try:
            out.append(("ok", go(timeout)))
        except BaseException as e:
            out.append(("exc", e))
    th = threading.Thread(target=run, daemon=True)
    th.start()
    end = time.monotonic() + rng.choice([0.01, 0.02, 0.05])
    blocked = False
    while time.monotonic() < end or not blocked:
        if out:
            break
        if os.stat(sc.path).st_size != sc.base[0] or os.stat(sc.path).st_mtime_ns != sc.base[1]:
            ctx.violation("changed:waiting", "a waiting open changed the file", key=key)
            break
        # the open has at least opened the file
        blocked = blocked or any(r.call in (shim.OPEN,) and r.ino == sc.ino for r in shim.records(m))
        if time.monotonic() > end + 10:
            break
        time.sleep(0.001)
    ctx.count("waits_observed")
    moved = None
    if not out:
        sc.same("a waiting open", key)
        if holder_writes:
            new = sc.data + b"by holder"
            pid = os.fork()
            if pid == 0:
                fd = os.open(sc.path, os.O_WRONLY | os.O_APPEND)
                os.write(fd, b"by holder")
                os._exit(0)
            os.waitpid(pid, 0)
            if sc.content() != new:
                ctx.violation("changed:waiting", "content written by the holder disappeared while an open was waiting", key=key)
            sc.data, sc.base = new, sc.state()
        if replace:
            moved = sc.path + ".old"
            os.rename(sc.path, moved)
            with open(sc.path, "wb") as f:  # another inode: no lock of ours is concerned
                f.write(b"successor")
            ctx.count("replaced")
    else:
        ctx.violation("not-blocked", "the open was not blocked by %r: %r" % (hk, out), key=key)
    rel()
    th.join(20)
    sc.rs.set_rsfile_options(default_spinlock_delay=0.1)
    if th.is_alive() or out[0][0] != "ok":
        ctx.violation("not-granted", "a blocked open did not succeed after the release: %r" % out, key=key)
        return
    recs = shim.records(m)
    sc.judge_log(recs, "a waiting open", key)
    res = out[0][1]
    if moved:
        with open(sc.path, "rb") as f:
            got = f.read()
        if got != b"successor":
            ctx.violation("wrong-file", "the file which took the place of the opened one was altered: %r" % got[:40], key=key)
    size = os.stat(moved or sc.path).st_size
    if hasattr(res, "close"):
        want = 0 if trunc else len(sc.data)
        if size != want:
            ctx.violation("truncation", "after a granted open in mode %s the size is %d instead of %d" % (desc[0], size, want), key=key)
        if trunc:
            ctx.count("granted_truncations")
        res.close()
    if moved:
        os.unlink(moved)
    ctx.case(key)
    sc.drop()


def free(sc):
    """Unhindered locking opens: ordering on the log."""
    ctx, rng = sc.ctx, sc.rng
    sc.make()
    desc, go, trunc, shared = sc.opener() if rng.random() < 0.8 else sc.helper()
    key = ("free", desc)
    m = shim.mark()
    st = go(rng.choice(["none", 0, 5]))
    recs = shim.records(m)
    sc.judge_log(recs, "an open", key)
    if hasattr(st, "close"):
        if trunc:
            ctx.count("granted_truncations")
            if os.stat(sc.path).st_size != 0:
                ctx.violation("truncation", "mode %s did not erase the file" % desc[0], key=key)
        else:
            sc.same("a non-truncating open", key)
        # the whole file is locked at that time
        a, e, p = sc.prober.scan(sc.path)
        if a != [(0, INF)]:
            ctx.violation("unlocked", "after a locking open the ranges locked are %s" % a, key=key)
        st.close()
        if not trunc:
            sc.same("closing after a non-truncating open", key)
    ctx.case(key)
    sc.drop()


def injected(sc):
    """Failing lock system calls: the file stays as it was."""
    ctx, rng = sc.ctx, sc.rng
    sc.make()
    desc, go, trunc, shared = sc.opener() if rng.random() < 0.8 else sc.helper()
    err = rng.choice([errno.ENOLCK, errno.EDEADLK, errno.EIO, errno.EACCES, errno.EAGAIN, errno.EINVAL, errno.EPERM, errno.ENOSYS])
    key = ("injected", desc, err)
    sc.rs.set_rsfile_options(default_spinlock_delay=0.005)
    st = os.stat(sc.path)
    m = shim.mark()
    with shim.Rule(shim.FCNTL, shim.ERR, err, count=-1, st=st, x1=0 if shared else 1) as rule:
        try:
            res = go(rng.choice([0, 0.01]))
            exc = None
        except Exception as e:
            exc, res = e, None
        hits = rule.hits()
    sc.rs.set_rsfile_options(default_spinlock_delay=0.1)
    if hits == 0:
        ctx.violation("no-lock", "a locking open made no lock system call", key=key)
    if exc is None:
        ctx.violation("error-ignored", "a locking open succeeded although the system refused its lock with errno %d" % err, key=key)
        if hasattr(res, "close"):
            res.close()
    sc.same("an open whose lock fails with errno %d" % err, key)
    sc.judge_log(shim.records(m), "an open whose lock fails", key)
    ctx.count("injected")
    ctx.case(key)
    sc.drop()


class Alarm(Exception):
    pass


def interrupted(sc):
    """An exception raised by a signal handler while the open waits."""
    ctx, rng = sc.ctx, sc.rng
    sc.make()
    desc, go, trunc, shared = sc.opener()
    iv = (0, INF)
    sc.foreign.setlk(sc.ffd, fcntl.F_WRLCK, *iv)
    key = ("interrupted", desc)

    def handler(*a):
        raise Alarm()
    old = signal.signal(signal.SIGALRM, handler)
    m = shim.mark()
    fds = len(os.listdir("/proc/self/fd"))
    try:
        signal.setitimer(signal.ITIMER_REAL, rng.choice([0.003, 0.01]), 0)
        try:
            go(rng.choice(["none", None, 20]))
            ctx.violation("not-blocked", "the open was not blocked", key=key)
        except Alarm:
            pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0, 0)
        signal.signal(signal.SIGALRM, old)
    sc.same("an interrupted open", key)
    sc.foreign.setlk(sc.ffd, fcntl.F_UNLCK, *iv)
    gc.collect()
    time.sleep(0.001)
    sc.same("an interrupted open, later", key)
    sc.judge_log(shim.records(m), "an interrupted open", key)
    a, e, p = sc.prober.scan(sc.path)
    if a:
        ctx.violation("leftover", "an interrupted open leaves locks %s" % a, key=key)
    if len(os.listdir("/proc/self/fd")) != fds:
        ctx.violation("leftover-fd", "an interrupted open leaves a descriptor open", key=key)
    ctx.count("interrupted")
    ctx.case(key)
    sc.drop()


def raced(sc):
    """Another process creates, replaces or deletes the file between whatever checks the open makes and its open() call."""
    ctx, rng = sc.ctx, sc.rng
    sc.make()
    kind = rng.choice(["appear", "appear", "swap", "vanish"])
    std = rng.random() < 0.5
    if kind == "appear":
        mode = rng.choice(["w", "a", "w+", "a+"] if std else ["W", "RW", "WE", "RWE", "A", "AE", "WC", "RWC", "RAC", "RWN"])
    else:
        mode = rng.choice(["w", "a", "w+", "r+", "r"] if std else ["W", "RW", "WE", "RWE", "RAE", "RWN", "WEN", "R", "AN"])
    full = mode + ("b" if std else "B")
    locked = rng.random() < 0.75
    kw = dict(mode=full, timeout=rng.choice([0, 0.02]), thread_safe=rng.random() < 0.5, buffering=rng.choice([-1, 0, 16]))
    helper = rng.random() < 0.2 and kind == "appear"
    form = rng.choice(["str", "bytes", "pathlib", "opener"])
    data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 40, 5000])))
    newfd = []

    def meanwhile():
        if kind == "appear" or kind == "swap":
            tmp = target + ".new" if kind == "swap" else target
            newfd.append(sc.foreign.call("create", tmp, data))
            if locked:
                assert sc.foreign.setlk(newfd[0], fcntl.F_WRLCK, *rng.choice([(0, INF), (2, 3), (10**9, INF)]))
            os.utime(tmp, ns=(10**18 + 5, 10**18 + 7))
            ino.append(os.stat(tmp).st_ino)
            if kind == "swap":
                os.rename(tmp, target)
        else:
            os.unlink(target)
    ino = []
    target = sc.path + (".r" if kind == "appear" else "")
    name = {"bytes": os.fsencode(target), "pathlib": pathlib.Path(target)}.get(form, target)
    if form == "opener":
        kw["opener"] = lambda p, flags: (meanwhile(), os.open(p, flags, 0o666))[1]
    key = ("raced", kind, full, locked, form, helper)
    out = []

    def go():
        try:
            if helper:
                out.append(sc.rs.write_to_file(target, b"replacement", timeout=0))
            else:
                st = sc.rs.rsopen(name, **kw)
                out.append(None)
                size.append(os.stat(target).st_size)
                st.close()
        except Exception as e:
            out.append(e)
    size = []
    m = shim.mark()
    sc.rs.set_rsfile_options(default_spinlock_delay=0.005)
    if form == "opener" and not helper:
        go()
    else:
        with shim.Rule(shim.OPEN, shim.STALL_BEFORE, count=1, pid=os.getpid()) as rule:
            th = threading.Thread(target=go)
            th.start()
            end = time.monotonic() + 20
            while not rule.stalled() and th.is_alive() and time.monotonic() < end:
                time.sleep(0.0005)
            hit = rule.stalled()
            if hit:
                meanwhile()
            rule.release()
            th.join()
        if not hit:
            raise RuntimeError("the open call was not seen")
    sc.rs.set_rsfile_options(default_spinlock_delay=0.1)
    exc, out = (out[0] if isinstance(out[0], Exception) else None), None
    must_new, must_old = "C" in mode, "N" in mode or mode in ("r", "r+")
    if helper:
        must_new = must_old = False
    if kind == "vanish":
        if must_old:
            if not isinstance(exc, FileNotFoundError):
                ctx.violation("vanish", "an open which must not create gives %r for a file deleted just before" % (exc,), key=key)
            if os.path.exists(target):
                ctx.violation("vanish", "an open which must not create created the file", key=key)
        elif exc is not None or os.stat(target).st_size:
            ctx.violation("vanish", "an open of a file deleted just before gives %r" % (exc,), key=key)
    else:
        want = FileExistsError if must_new else sc.rs.LockingException if locked else None
        if (exc is not None) if want is None else not isinstance(exc, want):
            ctx.violation("raced", "an open in mode %s of a file which another process %s at the same time gives %r" % (
                full, "created" if kind == "appear" else "replaced", exc), key=key)
        elif want is not None:
            gc.collect()
            try:
                st = os.stat(target)
            except OSError:
                st = None
            if st is None or (st.st_size, st.st_mtime_ns, st.st_ino) != (len(data), 10**18 + 7, ino[0]):
                ctx.violation("raced-damage", "a failed open in mode %s damaged the file that another process had just %s%s: %s" % (
                    full, "created" if kind == "appear" else "put there", " and locked" if locked else "", st), key=key)
            elif sc.content(target) != data:
                ctx.violation("raced-damage", "a failed open in mode %s altered the content of a file just created by another process" % full, key=key)
        elif not helper and ("E" in mode or mode[0] == "w") != (size[0] == 0):
            ctx.violation("raced", "after an open in mode %s of a file just created by another process, the size is %d" % (full, size[0]), key=key)
        sc.ino = ino[0]
        sc.judge_log(shim.records(m), "an open racing with another process", key)
    ctx.count("raced")
    exc = None
    for f in newfd:
        sc.foreign.call("close", f)
    for n in (target, target + ".new"):
        try:
            os.unlink(n)
        except OSError:
            pass
    ctx.case(key, sample={"race": kind, "mode": full})
    sc.drop()


def wraps(sc, zero=False):
    """Wrapping never truncates."""
    ctx, rng, rs = sc.ctx, sc.rng, sc.rs
    sc.make()
    mode = rng.choice(TRUNC + KEEP)
    bin_ = rng.random() < 0.6
    std = mode == mode.lower()
    md = mode + (("b" if std else "B") if bin_ else "")
    fd = os.open(sc.path, os.O_RDWR | (os.O_APPEND if "a" in mode.lower() else 0))
    saved = None
    if zero:
        saved = os.dup(0) if 0 in map(int, os.listdir("/proc/self/fd")) else None
        os.dup2(fd, 0)
        fd2, fd = fd, 0
        shim.lib().vs_track(0, 1)
    how = rng.choice(["fileno", "handle"] + (["name"] if std else []))
    closefd = rng.random() < 0.5 and not zero
    locking = rng.random() < 0.5
    kw = dict(mode=md, locking=locking, thread_safe=rng.random() < 0.5, closefd=closefd)
    if locking:
        kw["timeout"] = 0
    if bin_ and rng.random() < 0.3:
        kw["buffering"] = 0
    conflict = locking and rng.random() < 0.3
    if conflict:
        sc.foreign.setlk(sc.ffd, fcntl.F_WRLCK, 0, 5)
    key = ("wrap", md, how, closefd, locking, conflict, zero)
    m = shim.mark()
    try:
        st = rs.rsopen(fd, **kw) if how == "name" else rs.rsopen(**{how: fd}, **kw)
        if conflict:
            ctx.violation("not-refused", "wrapping with locking succeeded in spite of a conflicting lock", key=key)
    except rs.LockingException:
        st = None
        if not conflict:
            raise
    sc.same("wrapping a descriptor", key)
    for r in shim.records(m):
        if r.call == shim.FTRUNC and r.ino == sc.ino:
            ctx.violation("wrap-truncates", "wrapping a descriptor called ftruncate", key=key)
    if st is not None:
        st.close()
    sc.same("wrapping and closing a descriptor", key)
    if conflict:
        sc.foreign.setlk(sc.ffd, fcntl.F_UNLCK, 0, 5)
    if zero:
        shim.lib().vs_track(0, 0)
        if saved is not None:
            os.dup2(saved, 0)
            os.close(saved)
        os.close(fd2)
        ctx.count("fd0")
    else:
        try:
            os.close(fd)
            if closefd and st is not None:
                ctx.violation("not-closed", "closing a stream that owns its descriptor left it open", key=key)
        except OSError:
            if not closefd:
                ctx.violation("closed", "a descriptor wrapped with closefd=False got closed", key=key)
    gc.collect()
    sc.same("the end of a wrapping", key)
    ctx.count("wraps")
    ctx.case(key)
    sc.drop()


def invalid(sc):
    """Refusals for other reasons than locks happen before anything is altered."""
    ctx, rng, rs = sc.ctx, sc.rng, sc.rs
    sc.make()
    bad = rng.choice([dict(mode="wb", encoding="utf8"), dict(mode="wb", errors="strict"), dict(mode="wb", newline="\n"), dict(mode="wbt"), dict(mode="WEBT"),
                      dict(mode="x"), dict(mode="WCE"), dict(mode="WCN"), dict(mode="RE"), dict(mode="E"), dict(mode="wr"), dict(mode="w", closefd=False),
                      dict(mode="w", buffering="2"), dict(mode="w", fileno=99), dict(mode="wE"), dict(mode="w", thread_safe=False, mutex=threading.Lock()),
                      dict(mode="w", timeout=-1), dict(mode="w", timeout="x"), dict(mode="w", encoding=5), dict(mode="ww"), dict(mode="WEE")])
    kw = dict(dict(timeout=0), **bad)
    key = ("invalid", repr(sorted(bad)), bad["mode"])
    try:
        st = rs.rsopen(sc.path, **kw)
        st.close()
        ctx.violation("accepted", "rsopen accepted %r" % bad, key=key)
    except (ValueError, TypeError, OSError):
        pass
    sc.same("an open refused for its arguments (%r)" % bad, key)
    ctx.count("invalid")
    ctx.case(key)
    sc.drop()


def run(ctx, i=0):
    prober, foreign = locks.Helper(), locks.Helper()
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    sc = Sc(ctx, rs, prober, foreign)
    n = 0
    while ctx.more(n, 120, 10**6):
        if shim.mark() > 150000:
            shim.reset()
        ctx.crumb("case %d" % n)
        k = n % 20
        if k < 6:
            refused(sc)
        elif k < 8:
            waits(sc)
        elif k < 11:
            free(sc)
        elif k < 13:
            injected(sc)
        elif k == 13 and n % 40 == 13:
            interrupted(sc)
        elif k == 14:
            invalid(sc)
        elif k == 15:
            wraps(sc, zero=True)
        elif k < 18:
            raced(sc)
        else:
            wraps(sc)
        n += 1
    prober.stop()
    foreign.stop()
