"""C20: identity, size and times tell the truth."""
import io, os, socket, tempfile, threading, time
from lib import vf

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: random histories of links, renames, replacements, deletions and writes under open streams; what the streams report is compared, after every step, with os.stat / os.fstat "
             "captured by the harness and with a shadow of the file's contents; pairs of files with equal inode numbers on different devices are engineered")
NOTE = "Sampled histories. Identity is judged for streams which are open at the same time (the system reuses inode numbers afterwards)."
RULE = ("one history of a directory; distinct by (kinds of streams opened, ways of opening, kinds of steps made); non-trivial when at least two streams shared a file and at least two did not.")
BUDGET = {"quick": 10, "thorough": 170}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"histories": 150, "pairs": 50000, "same_pairs": 3000, "size": 10000, "size_pending": 500, "times": 5000, "renamed": 300, "unlinked": 300}

LETTERS = "abcdefgh"


def shards(tier, seed):
    return [("p%d" % i, {"i": i}) for i in range(8)]


def layer(s):
    return "text" if isinstance(s, io.TextIOBase) else ("raw" if isinstance(s, io.RawIOBase) else "buffered")


class Str:
    """One stream and what the harness knows about its file."""

    def __init__(self, s, key, how, mode, text):
        self.s, self.key, self.how, self.mode, self.text = s, key, how, mode, text
        self.writes = s.writable()
        self.reads = s.readable()
        self.append = "a" in mode or "A" in mode
        self.pending = False

    def __repr__(self):
        return "<%s %s opened %s mode %r>" % (self.how, layer(self.s), self.key, self.mode)


class World:
    def __init__(self, ctx, rf):
        self.ctx, self.rf, self.rng = ctx, rf, ctx.rng
        self.dir = ctx.fresh("d")
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, "sub"))
        self.streams = []
        self.fds = []
        self.size = {}      # key -> expected size of the file once everything is flushed
        self.log = []
        self.kinds = set()

    def path(self, name=None):
        n = name or self.rng.choice(LETTERS)
        return os.path.join(self.dir, n)

    def names(self, links=True):
        out = []
        for n in LETTERS:
            p = self.path(n)
            try:
                (os.stat if links else os.lstat)(p)
                out.append(n)
            except OSError:
                pass
        return out

    def settle(self, key, but=None):
        """Buffered data of the other streams go to the file before something else changes it."""
        for x in self.streams:
            if x.key == key and x is not but and x.pending:
                x.s.flush()
                x.pending = False

    # --- steps
    def create(self):
        p = self.path()
        if os.path.lexists(p):
            return
        n = self.rng.randrange(400)
        with open(p, "wb") as f:
            f.write(b"0123456789\n" * 40 if n > 390 else b"x" * n)
        self.size.setdefault(self.key(os.stat(p)), 0)
        self.size[self.key(os.stat(p))] = os.stat(p).st_size

    @staticmethod
    def key(st):
        return (st.st_dev, st.st_ino)

    def open(self):
        rng, rf = self.rng, self.rf
        if len(self.streams) >= 9:
            return
        names = self.names()
        if not names:
            return
        name = rng.choice(names)
        p = self.path(name)
        st = os.stat(p)
        key = self.key(st)
        if key not in self.size:
            self.size[key] = st.st_size
        self.settle(key)
        text = rng.random() < 0.3
        mode = rng.choice(["r", "r", "r+", "a", "a+", "w", "w+", "R", "W", "RW", "A", "RA", "WN", "RWN", "RWE", "WE"])
        kw = dict(locking=False, thread_safe=rng.random() < 0.4)
        if text:
            mode += rng.choice(["", "t" if mode.islower() else "T"])
            kw.update(encoding="utf-8", errors="replace", newline="")
            if rng.random() < 0.5:
                kw["buffering"] = rng.choice([1, 16, 100])
        else:
            mode += "b" if mode.islower() else "B"
            kw["buffering"] = rng.choice([-1, 0, 3, 64, 8192])
        how = rng.choice(["str", "bytes", "relative", "pathlike", "proc", "fd", "dup", "dupkeep", "opener", "handle", "dotdot"])
        arg, cwd = p, None
        if how == "bytes":
            arg = os.fsencode(p)
        elif how == "relative":
            arg = os.path.relpath(p)
        elif how == "dotdot":
            arg = os.path.join(self.dir, "sub", "..", name)
        elif how == "pathlike":
            class P:
                def __fspath__(self):
                    return p
            arg = P()
        elif how == "proc":
            fd = os.open(p, os.O_RDWR)
            self.fds.append(fd)
            arg = "/proc/self/fd/%d" % fd
        elif how in ("fd", "dup", "dupkeep", "handle"):
            fl = os.O_RDWR | (os.O_APPEND if mode[0] in "aA" or "A" in mode else 0)
            fd = os.open(p, fl)
            if how == "dup":
                fd2 = os.dup(fd)
                os.close(fd)
                fd = fd2
            elif how == "dupkeep":
                self.fds.append(fd)
                fd = os.dup(fd)
            arg = fd
        elif how == "opener":
            kw["opener"] = lambda f, fl: os.open(f, fl)
        if how == "handle":
            arg = None
            kw["handle"] = fd
        elif how in ("fd", "dup", "dupkeep") and (mode[0].isupper() or rng.random() < 0.3):
            arg = None
            kw["fileno"] = fd
        if "opener" in kw and mode[0].isupper():
            mode = mode.lower().replace("rw", "r+").replace("e", "").replace("n", "").replace("ra", "a+")
        self.ctx.crumb("open(%r, %r, %r)" % (arg, mode, kw))
        s = rf.rsopen(arg, mode, **kw)
        x = Str(s, key, how, mode, text)
        if os.fstat(s.fileno()).st_size != self.size[key]:
            self.size[key] = os.stat(p).st_size  # truncated at opening (whether rightly is the matter of another check)
        self.streams.append(x)
        self.kinds.add((how, layer(s), mode))
        self.log.append("open %s as %r" % (name, x))

    def close(self):
        if not self.streams:
            return
        x = self.rng.choice(self.streams)
        self.log.append("close %r" % x)
        self.streams.remove(x)
        self.settle(x.key)
        x.s.close()
        for f, m in ((x.s.unique_id, "unique_id"), (x.s.size, "size"), (x.s.times, "times")):
            try:
                f()
            except ValueError:
                pass
            else:
                self.ctx.violation("closed-answers", "%s() of a closed stream gave a result" % m, stream=repr(x))

    def link(self):
        src, dst = self.names(links=False), self.path()
        if src and not os.path.lexists(dst):
            n = self.rng.choice(src)
            if self.rng.random() < 0.5:
                os.link(self.path(n), dst)
            else:
                os.symlink(self.rng.choice([n, self.path(n)]), dst)
            self.log.append("link %s %s" % (n, dst[-1]))
            self.kinds.add("link")

    def rename(self):
        src = self.names(links=False)
        if src:
            n, d = self.rng.choice(src), self.path()
            os.rename(self.path(n), d)  # replaces another file at times
            self.log.append("rename %s %s" % (n, d[-1]))
            self.ctx.count("renamed")
            self.kinds.add("rename")

    def swap(self):
        src = self.names(links=False)
        if len(src) >= 2:
            a, b = self.rng.sample(src, 2)
            t = os.path.join(self.dir, "sub", "t")
            os.rename(self.path(a), t)
            os.rename(self.path(b), self.path(a))
            os.rename(t, self.path(b))
            self.log.append("swap %s %s" % (a, b))
            self.ctx.count("renamed", 2)
            self.kinds.add("swap")

    def unlink(self):
        src = self.names(links=False)
        if src:
            n = self.rng.choice(src)
            os.unlink(self.path(n))
            self.log.append("unlink %s" % n)
            self.ctx.count("unlinked")
            self.kinds.add("unlink")
            if self.rng.random() < 0.6:
                self.create()  # often the same name again, for another file

    def outside(self):
        """Another program changes a file."""
        names = self.names()
        if not names:
            return
        p = self.path(self.rng.choice(names))
        key = self.key(os.stat(p))
        self.settle(key)
        n = self.rng.choice([0, 1, 7, 100, 5000, 2 ** 31 + 5, 2 ** 40 + 3])
        os.truncate(p, n)
        self.size[key] = n
        self.log.append("truncate %s to %d from outside" % (p[-1], n))

    def utime(self):
        names = self.names()
        if not names:
            return
        p = self.path(self.rng.choice(names))
        rng = self.rng
        v = [rng.choice([0, 1, 999999999, 10 ** 9, 1234567890123456789, 2 ** 31 * 10 ** 9 + 1, 2 ** 33 * 10 ** 9 + 123456700,
                         rng.randrange(2 ** 61), -1, -10 ** 9 - 5]) for _ in range(2)]
        os.utime(p, ns=tuple(v))
        self.log.append("utime %s %r" % (p[-1], v))

    def write(self):
        cand = [x for x in self.streams if x.writes]
        if not cand:
            return
        x = self.rng.choice(cand)
        self.settle(x.key, but=x)
        rng = self.rng
        n = rng.choice([0, 1, 2, 5, 15, 16, 17, 63, 64, 65, 300, 9000])
        unit = rng.choice(["a", "é", "€", "\n"]) if x.text else b"b"
        data = unit * n
        nbytes = len(data.encode()) if x.text else n
        end = self.size[x.key]
        where = rng.choice(["here", "end", "start", "end", "past"])
        if x.append or where == "here" and not hasattr(x, "at"):
            where = "end"
        if where == "end" and x.text and end > 2 ** 31:
            where = "start"
        if where == "end":
            x.s.seek(0, 2)
            x.at = end
        elif where == "start":
            x.s.seek(0)
            x.at = 0
        elif where == "past" and not x.text:
            x.at = end + rng.choice([1, 1000])
            x.s.seek(x.at)
        elif where == "past":
            x.s.seek(0)
            x.at = 0
        if x.append:
            x.at = end
        how = "write"
        if not x.text and rng.random() < 0.3 and n >= 2:
            x.s.writelines([data[:1], data[1:]])
            how = "writelines"
        else:
            left = data
            while True:
                r = x.s.write(left)
                if x.text or r == len(left):
                    break
                left = left[r:]
        x.pending = True
        if nbytes:
            self.size[x.key] = max(end, x.at + nbytes)
        x.at += nbytes
        self.log.append("%s %d bytes %s with %r" % (how, nbytes, where, x))
        self.kinds.add(("write", layer(x.s), n > 64))
        if rng.random() < 0.6:
            self.check_size(x)

    def truncate(self):
        cand = [x for x in self.streams if x.writes]
        if not cand:
            return
        x = self.rng.choice(cand)
        self.settle(x.key)
        n = self.rng.choice([0, 1, 10, 300, 9001, 2 ** 33 + 1])
        x.s.truncate(n)
        self.size[x.key] = n
        if hasattr(x, "at"):
            del x.at
        self.log.append("truncate to %d with %r" % (n, x))
        self.kinds.add("truncate")

    def read(self):
        cand = [x for x in self.streams if x.reads]
        if cand:
            x = self.rng.choice(cand)
            self.settle(x.key)
            if self.size[x.key] < 2 ** 30:
                x.s.seek(0)
                x.s.read(self.rng.choice([0, 1, 10, 20000]))
                if hasattr(x, "at"):
                    del x.at
                x.s.seek(0, 1)

    def flush(self):
        if self.streams:
            x = self.rng.choice(self.streams)
            x.s.flush()
            x.pending = False

    # --- what the streams say
    def check_size(self, x):
        pend = x.pending
        before = os.fstat(x.s.fileno()).st_size
        for y in self.streams:
            if y is not x and y.key == x.key and y.pending:
                return  # its data may or may not be on file
        got = x.s.size()
        want = self.size[x.key]
        self.ctx.count("size")
        if pend and before != want:
            self.ctx.count("size_pending")
        if got != want or type(got) is not int:
            self.ctx.violation("size", "size() = %r while the file has %d bytes with what was written through the stream" % (got, want), stream=repr(x),
                               onfile=before, log=self.log[-12:])
        x.pending = False  # what the documentation says about size()
        now = os.fstat(x.s.fileno()).st_size
        if now != want:
            self.ctx.violation("size-buffers", "after size() the file has %d bytes instead of %d" % (now, want), stream=repr(x), log=self.log[-12:])

    def check_times(self, x):
        st = os.fstat(x.s.fileno())
        t = x.s.times()
        st2 = os.fstat(x.s.fileno())
        self.ctx.count("times")
        for attr, name in (("access_time", "st_atime"), ("modification_time", "st_mtime")):
            got, a, b = getattr(t, attr), getattr(st, name), getattr(st2, name)
            if not (min(a, b) <= got <= max(a, b)):
                self.ctx.violation("times", "%s is %r instead of %r" % (attr, got, a), stream=repr(x), log=self.log[-12:])

    def check_ids(self):
        ids = []
        for x in self.streams:
            u = x.s.unique_id()
            ids.append(u)
            if not hasattr(x, "uid"):
                x.uid = u
            elif x.uid != u:
                self.ctx.violation("id-changed", "the unique id went from %r to %r" % (x.uid, u), stream=repr(x), log=self.log[-12:])
            if self.key(os.fstat(x.s.fileno())) != x.key:
                self.ctx.violation("wrong-file", "the descriptor of the stream is not that of the file that was opened", stream=repr(x), log=self.log[-12:])
        for i, x in enumerate(self.streams):
            for j in range(i):
                y = self.streams[j]
                self.ctx.count("pairs")
                same = x.key == y.key
                if same:
                    self.ctx.count("same_pairs")
                if same != (ids[i] == ids[j]) or (same and hash(ids[i]) != hash(ids[j])):
                    self.ctx.violation("identity", "%s files report %s ids: %r and %r" % ("equal" if same else "different", "different" if same else "equal", ids[i], ids[j]),
                                       streams=[repr(x), repr(y)], log=self.log[-14:])

    def finish(self):
        for x in self.streams:
            x.s.close()
        for fd in self.fds:
            os.close(fd)


def history(ctx, rf):
    w = World(ctx, rf)
    rng = ctx.rng
    for _ in range(3):
        w.create()
    steps = [w.create, w.open, w.open, w.open, w.close, w.link, w.rename, w.swap, w.unlink, w.outside, w.utime, w.write, w.write, w.write, w.truncate, w.read, w.flush]
    same = diff = False
    for _ in range(rng.choice([30, 60, 120])):
        rng.choice(steps)()
        w.check_ids()
        for x in list(w.streams):
            r = rng.random()
            if r < 0.35:
                w.check_size(x)
            elif r < 0.6:
                w.check_times(x)
        ks = [x.key for x in w.streams]
        same = same or len(set(ks)) < len(ks)
        diff = diff or len(set(ks)) > 1
    w.finish()
    ctx.count("histories")
    ctx.case(sorted(map(repr, w.kinds)), nontrivial=same and diff, sample={"steps": w.log[:8]})


def special(ctx, rf):
    """Files without a name, and several kinds of file at once."""
    rng = ctx.rng
    streams = []

    def add(fd, mode, **kw):
        k = World.key(os.fstat(fd))
        streams.append((rf.rsopen(fd, mode, locking=False, **kw), k))
    for _ in range(rng.choice([1, 2])):
        r, w = os.pipe()
        add(r, "rb", buffering=rng.choice([-1, 0]))
        add(w, "wb", buffering=rng.choice([-1, 0]))
    m = os.memfd_create("vf")
    add(os.dup(m), "rb+")
    add(os.open("/proc/self/fd/%d" % m, os.O_RDONLY), "rb", buffering=0)
    os.close(m)
    add(os.memfd_create("vf"), "rb+", buffering=0)
    a, b = socket.socketpair()
    add(a.detach(), "rb", buffering=0)
    add(b.detach(), "wb", buffering=0)
    p = ctx.fresh("u")
    open(p, "w").close()
    add(os.open(p, os.O_RDWR), "rb+")
    add(os.open(p, os.O_RDWR), "rb+", buffering=0)
    os.unlink(p)
    add(os.open("/dev/null", os.O_RDWR), "rb+", buffering=0)
    add(os.open("/dev/null", os.O_WRONLY), "wb", buffering=0)
    add(os.open("/dev/zero", os.O_RDWR), "rb+", buffering=0)
    for i, (s, k) in enumerate(streams):
        for t, l in streams[:i]:
            ctx.count("pairs")
            if (k == l) != (s.unique_id() == t.unique_id()):
                ctx.violation("identity-special", "unique ids %r and %r for files %r and %r" % (s.unique_id(), t.unique_id(), k, l))
    # another process has the same opinion
    r, w = os.pipe()
    q = ctx.fresh("q")
    open(q, "w").close()
    pid = os.fork()
    if not pid:
        try:
            with rf.rsopen(q, "rb", locking=False) as s:
                os.write(w, repr([s.unique_id()] + [x.unique_id() for x, _ in streams]).encode())
        finally:
            os._exit(0)
    os.close(w)
    with rf.rsopen(q, "ab", locking=False) as s:
        mine = repr([s.unique_id()] + [x.unique_id() for x, _ in streams])
    with open(r, "rb") as f:
        theirs = f.read().decode()
    os.waitpid(pid, 0)
    if theirs != mine:
        ctx.violation("identity-process", "unique ids in a child process: %s, in the parent: %s" % (theirs, mine))
    ctx.count("specials")
    for s, _ in streams:
        s.close()


def twins(ctx, rf, limit):
    """Different files with the same inode number, on different devices."""
    known = {}
    t0 = time.monotonic()
    for root in ("/usr", "/sys/kernel", "/sys/module", "/opt"):
        for base, ds, fs in os.walk(root):
            for f in fs:
                p = os.path.join(base, f)
                try:
                    st = os.lstat(p)
                except OSError:
                    continue
                if st.st_mode & 0o170444 == 0o100444 and st.st_size:
                    known.setdefault(st.st_ino, (st.st_dev, p))
            if time.monotonic() - t0 > limit / 3:
                break
    found = 0
    t0 = time.monotonic()
    while time.monotonic() - t0 < limit / 2 and found < 5:
        fd = os.memfd_create("vf")
        st = os.fstat(fd)
        other = known.get(st.st_ino)
        if other is None or other[0] == st.st_dev:
            os.close(fd)
            continue
        found += 1
        ctx.count("inode_twins")
        with rf.rsopen(fd, "rb+", locking=False) as a, rf.rsopen(other[1], "rb", locking=False) as b:
            if a.unique_id() == b.unique_id():
                ctx.violation("identity-device", "two files with the same inode number on different devices have the same id %r" % (a.unique_id(),), other=other[1])
    # the locks of such a pair have nothing to do with each other
    try:
        d = tempfile.mkdtemp(dir="/dev/shm", prefix="vf-")
    except OSError:
        return
    try:
        p = os.path.join(d, "f")
        t0 = time.monotonic()
        a = os.open(p, os.O_CREAT | os.O_RDWR)
        b = os.memfd_create("vf")
        n = 0
        while time.monotonic() - t0 < limit and os.fstat(a).st_ino != os.fstat(b).st_ino:
            n += 1
            if os.fstat(a).st_ino < os.fstat(b).st_ino:
                os.close(a)
                os.unlink(p)
                a = os.open(p, os.O_CREAT | os.O_RDWR)
            else:
                os.close(b)
                b = os.memfd_create("vf")
        if os.fstat(a).st_ino == os.fstat(b).st_ino and os.fstat(a).st_dev != os.fstat(b).st_dev:
            with rf.rsopen(a, "rb+", locking=False) as x, rf.rsopen(b, "rb+", locking=False) as y:
                ctx.count("locked_twins")
                x.lock_file(timeout=0)
                try:
                    y.lock_file(timeout=0)
                except rf.LockingException:
                    ctx.violation("twin-locks", "the lock of a file prevents locking another file, which has the same inode number on another device")
    finally:
        try:
            os.unlink(p)
        except OSError:
            pass
        os.rmdir(d)


def run(ctx, i):
    rf = vf.import_rsfile()
    if i == 0:
        twins(ctx, rf, 3 if ctx.tier == "quick" else 15)
    n = 0
    while ctx.more(n, 12, 10 ** 9):
        ctx.crumb("history %d" % n)
        if n % 6 == 5:
            special(ctx, rf)
        history(ctx, rf)
        n += 1
