"""C12: open modes mean what the documented table says."""
import errno, fcntl, io, itertools, json, os, pathlib, stat, subprocess, sys, threading, time, traceback
from lib import locks, shim, vf

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every subset of the mode flags is opened for real on existing and missing files, and an oracle written from the documented table judges "
             "the outcome from the kernel's side (descriptor flags, inode, content, permissions) and by using the stream")
NOTE = "All subsets of the flags in both notations are covered at every run; order of flags, permissions, umask, path forms and access rights are sampled."
RULE = ("one open with a mode string, on an existing, missing or special path, judged by the documented table; distinct by (mode as a set and notation, path kind, outcome, "
        "buffering class, permission class); non-trivial always (an open is performed or refused).")
BUDGET = {"quick": 11, "thorough": 150}
TIMEOUT = {"quick": 200, "thorough": 900}
MIN = {"opens": 4000, "refused_modes": 1000, "existing_refused": 100, "created": 500, "erased": 100, "flag_words": 1000, "raced": 100}

ADV = "RAWCN-+SIEBT"
STD = "xarw+bt"


def shards(tier, seed):
    return [("o%d" % i, {"i": i}) for i in range(8)]


def table(mode):
    """Documented meaning of a mode string: None when it must be refused."""
    if not mode or len(set(mode)) != len(mode):
        return None
    s = set(mode)
    if s <= set(ADV):
        d = dict(read="R" in s, append="A" in s, write="W" in s or "A" in s, create="C" in s or "-" in s, nocreate="N" in s or "+" in s, sync="S" in s, inherit="I" in s,
                 erase="E" in s, binary="B" in s)
        if "B" in s and "T" in s or d["create"] and d["nocreate"] or not (d["read"] or d["write"]):
            return None
        if d["erase"] and not d["write"] and not d["create"]:
            return None
        d["erase"] = d["erase"] and not d["create"]
        return d
    if s <= set(STD):
        if sum(c in s for c in "xarw") != 1 or "b" in s and "t" in s:
            return None
        return dict(read="r" in s or "+" in s, append="a" in s, write=bool(s & set("xaw+")), create="x" in s, nocreate="r" in s, sync=False, inherit=False, erase="w" in s, binary="b" in s)
    return None


class Odd(Exception):
    pass


class Judge:
    def __init__(self, ctx, rs):
        self.ctx, self.rs, self.rng, self.foreign = ctx, rs, ctx.rng, locks.Helper()

    def fail(self, mech, msg):
        self.ctx.violation(mech, "%s [%s]" % (msg, self.what))
        raise Odd()

    def attempt(self, name, mode, **kw):
        try:
            return self.rs.rsopen(name, mode, **kw), None
        except Exception as e:
            return None, e

    def one(self, mode, exists, deep=True):
        ctx, rng = self.ctx, self.rng
        t = table(mode)
        p = ctx.fresh("m")
        old = rng.choice([b"", b"0123456789", b"line\nother line\n"])
        oldmode = rng.choice([0o600, 0o644, 0o755, 0o640])
        if exists:
            with open(p, "wb") as f:
                f.write(old)
            os.chmod(p, oldmode)
            st0 = os.stat(p)
        umask = rng.choice([0, 0o022, 0o022, 0o077, 0o027, 0o777])
        kw = dict(locking=rng.random() < 0.5, thread_safe=rng.random() < 0.5)
        if kw["locking"]:
            kw["timeout"] = 0
        perm = rng.choice([None, None, 0o777, 0o666, 0o600, 0o640, 0o400, 0o000, 0o751, 0o1777, 0o4755])
        if perm is not None:
            kw["permissions"] = perm
        text = t is not None and not t["binary"] or t is None and "b" not in mode.lower()
        kw["buffering"] = rng.choice([-1, -1, None, 1 if text else 64, 20] + ([] if text else [0, 0]))
        path = rng.choice([p, p, p, p.encode(), pathlib.Path(p), os.path.relpath(p)])
        self.what = "mode %r, %s file, %r" % (mode, "existing" if exists else "missing", kw)
        prev = os.umask(umask)
        try:
            s, e = self.attempt(path, mode, **kw)
        finally:
            os.umask(prev)
        ctx.count("opens")
        try:
            want = None
            if t is None:
                want = ValueError
            elif t["create"] and exists:
                want = FileExistsError
            elif t["nocreate"] and not exists:
                want = FileNotFoundError
            if want:
                if s is not None:
                    self.fail("accepted", "the open is accepted instead of being refused by %s" % want.__name__)
                if not isinstance(e, want):
                    self.fail("wrong-error", "the open raises %r instead of %s" % (e, want.__name__))
                ctx.count("refused_modes" if t is None else "existing_refused")
                if not exists and os.path.lexists(p):
                    self.fail("created-though-refused", "a refused open creates the file")
                if exists:
                    with open(p, "rb") as f:
                        if f.read() != old or os.stat(p).st_mode != st0.st_mode:
                            self.fail("changed-though-refused", "a refused open changes the file")
            else:
                if e is not None:
                    self.fail("refused", "the open raises %r" % e)
                self.check(s, t, p, exists, old, oldmode, perm, umask, kw, text, deep)
            ctx.case((frozenset(mode), len(mode), exists, type(e).__name__, kw["buffering"], perm, umask), sample={"mode": mode, "exists": exists, "outcome": repr(e) if e else "opened"})
        except Odd:
            pass
        finally:
            if s is not None:
                s.close()
            if os.path.lexists(p):
                os.unlink(p)

    def check(self, s, t, p, exists, old, oldmode, perm, umask, kw, text, deep):
        ctx, rng = self.ctx, self.rng
        try:
            st = os.stat(p)
        except OSError:
            self.fail("not-created", "no file exists after the open")
        fd = s.fileno()
        if (os.fstat(fd).st_ino, os.fstat(fd).st_dev) != (st.st_ino, st.st_dev):
            self.fail("other-file", "the descriptor is that of another file")
        # permissions
        if exists:
            if stat.S_IMODE(st.st_mode) != oldmode:
                self.fail("permissions", "the permissions of an existing file change")
        else:
            ctx.count("created")
            want = (0o777 if perm is None else perm) & ~umask
            if stat.S_IMODE(st.st_mode) != want:
                self.fail("permissions", "the new file has permissions %o instead of %o" % (stat.S_IMODE(st.st_mode), want))
        # content
        content = b"" if t["erase"] or not exists else old
        if exists and t["erase"] and old:
            ctx.count("erased")
        if st.st_size != len(content):
            self.fail("kept-or-erased", "the file has %d bytes just after the open instead of %d" % (st.st_size, len(content)))
        # descriptor
        fl = fcntl.fcntl(fd, fcntl.F_GETFL)
        ctx.count("flag_words")
        acc = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(t["read"], t["write"])]
        if fl & os.O_ACCMODE != acc:
            self.fail("access", "the descriptor has access mode %d instead of %d" % (fl & os.O_ACCMODE, acc))
        if bool(fl & os.O_APPEND) != t["append"]:
            self.fail("append", "the descriptor %s in append mode" % ("is" if fl & os.O_APPEND else "isn't"))
        if ((fl & os.O_SYNC) == os.O_SYNC) != t["sync"]:
            self.fail("sync", "the descriptor %s synchronized" % ("is" if fl & os.O_SYNC == os.O_SYNC else "isn't"))
        if os.get_inheritable(fd) != t["inherit"]:
            self.fail("inherit", "the descriptor %s inheritable" % ("is" if os.get_inheritable(fd) else "isn't"))
        if fl & os.O_NONBLOCK:
            self.fail("nonblock", "the descriptor is non-blocking")
        # the stream
        if s.readable() != t["read"] or s.writable() != t["write"] or not s.seekable():
            self.fail("able", "readable(), writable(), seekable() give %s %s %s" % (s.readable(), s.writable(), s.seekable()))
        if not deep:
            return
        pos = s.tell()
        if pos != (len(content) if t["append"] else 0):
            self.fail("position", "the initial position is %d" % pos)
        conv = (lambda b: b.decode()) if not t["binary"] else (lambda b: b)
        s.seek(0)
        if t["read"]:
            got = s.read() if kw["buffering"] != 0 else s.readall()
            if got != conv(content):
                self.fail("read", "reading gives %r instead of %r" % (got, conv(content)))
        else:
            try:
                s.read(1)
                self.fail("read-allowed", "a write-only stream can be read")
            except io.UnsupportedOperation:
                pass
        model = bytearray(content)
        if t["write"]:
            s.seek(2 if len(content) > 5 else 0)
            at = len(model) if t["append"] else (2 if len(content) > 5 else 0)
            s.write(conv(b"XYZ"))
            s.flush()
            model[at:at + 3] = b"XYZ"
            if t["append"]:
                # what others append meanwhile must be respected
                g = os.open(p if os.access(p, os.W_OK) else p, os.O_WRONLY | os.O_APPEND) if not kw["locking"] else None
                if g is not None:
                    os.write(g, b"other")
                    os.close(g)
                    model += b"other"
                    s.write(conv(b"END"))
                    s.flush()
                    model += b"END"
            if os.stat(p).st_size != len(model):
                self.fail("write", "after writing, the file has %d bytes instead of %d" % (os.stat(p).st_size, len(model)))
        else:
            try:
                s.write(conv(b"x"))
                self.fail("write-allowed", "a read-only stream can be written")
            except io.UnsupportedOperation:
                pass
            try:
                s.truncate(0)
                self.fail("truncate-allowed", "a read-only stream can be truncated")
            except io.UnsupportedOperation:
                pass
        try:
            s.write(b"bytes" if not t["binary"] else "text")
            self.fail("text-or-binary", "the stream accepts the wrong kind of string")
        except (TypeError, ValueError):
            pass
        if rng.random() < 0.02:
            ctx.count("exec_children")
            r = subprocess.run(["/bin/sh", "-c", "test -e /proc/self/fd/%d" % fd], close_fds=False, env={}).returncode == 0
            if r != t["inherit"]:
                self.fail("inherit", "an executed child %s the descriptor" % ("has" if r else "doesn't have"))
        s.close()
        with open(p, "rb") as f:
            got = f.read()
        if got != model:
            self.fail("content", "the file holds %r instead of %r" % (got, bytes(model)))

    # --- special paths
    def special(self):
        ctx, rng = self.ctx, self.rng
        d = ctx.fresh("d")
        os.mkdir(d)
        f = os.path.join(d, "f")
        with open(f, "wb") as x:
            x.write(b"data")
        os.symlink("f", os.path.join(d, "good"))
        os.symlink("gone", os.path.join(d, "dangling"))
        os.symlink("loop", os.path.join(d, "loop"))
        os.mkdir(os.path.join(d, "sub"))
        valid = [m for m in ("r", "r+", "rb", "w", "wb", "a", "a+b", "x", "xb", "RN", "RB", "RW", "WE", "A", "RAE", "RWC", "WCB", "RN", "RWNSB", "RC", "RI")]
        for mode in valid:
            t = table(mode)
            for kind, name in (("dir", os.path.join(d, "sub")), ("good", os.path.join(d, "good")), ("dangling", os.path.join(d, "dangling")), ("loop", os.path.join(d, "loop")),
                               ("notdir", f + "/x"), ("nodir", d + "/no/x"), ("slash", f + "/"), ("long", d + "/" + "n" * 300), ("null", d + "/a\0b"), ("empty", ""), ("dirslash", d + "/sub/"),
                               ("surrogate", os.path.join(d, "n\udcff")), ("int", 1.5), ("bool", True), ("negative", -1), ("none", None), ("unicode", os.path.join(d, "né日"))):
                if rng.random() > 0.5:
                    continue
                self.what = "mode %r, path %s" % (mode, kind)
                before = sorted(os.listdir(d))
                size = os.stat(f).st_size
                s, e = self.attempt(name, mode, locking=rng.random() < 0.5, timeout=0)
                ctx.count("special_paths")
                allowed = None  # success
                if kind in ("dir", "dirslash"):
                    allowed = (FileExistsError, IsADirectoryError) if t["create"] else (IsADirectoryError,)
                elif kind == "good":
                    allowed = (FileExistsError,) if t["create"] else None
                elif kind == "dangling":
                    allowed = (FileExistsError,) if t["create"] else (FileNotFoundError,) if t["nocreate"] else None
                elif kind == "loop":
                    allowed = (FileExistsError,) if t["create"] else (OSError,)
                elif kind == "notdir":
                    allowed = (NotADirectoryError,)
                elif kind == "slash":
                    allowed = (NotADirectoryError, IsADirectoryError, FileExistsError)
                elif kind == "nodir" or kind == "empty":
                    allowed = (FileNotFoundError,)
                elif kind == "long":
                    allowed = (OSError,)
                elif kind == "null":
                    allowed = (ValueError,)
                elif kind in ("int", "bool", "negative", "none"):
                    allowed = (TypeError, ValueError)
                elif kind in ("surrogate", "unicode"):
                    allowed = (FileNotFoundError,) if t["nocreate"] else None
                try:
                    if allowed is None and e is not None:
                        self.fail("refused", "the open raises %r" % e)
                    if allowed is not None and not isinstance(e, allowed):
                        self.fail("accepted" if e is None else "wrong-error", "the open gives %r instead of %s" % (e, "/".join(x.__name__ for x in allowed)))
                    if e is not None and (sorted(os.listdir(d)) != before or os.stat(f).st_size != size):
                        self.fail("changed-though-refused", "a refused open changes the directory or the file")
                    if e is None and kind == "dangling" and not os.path.exists(os.path.join(d, "gone")):
                        self.fail("not-created", "the target of the link is not created")
                    ctx.case(("special", mode, kind, type(e).__name__))
                except Odd:
                    pass
                if s is not None:
                    s.close()
                for n in os.listdir(d):
                    if n not in before:
                        os.unlink(os.path.join(d, n))
                with open(f, "wb") as x:
                    x.write(b"data")
        for bad in ("rW", "Rb", "wB", "r w", "R,W", "q", "Q", "rr", "RR", "", "br+b", "WW", "rt+t", "U", "rU", "RU", "\0", "é", "r\n"):
            self.what = "mode %r" % bad
            s, e = self.attempt(f, bad, locking=False)
            try:
                if not isinstance(e, ValueError):
                    self.fail("accepted", "the open gives %r" % (e or s))
            except Odd:
                pass
            ctx.case(("badmode", bad))
            if s:
                s.close()
        for bad in (None, 5, b"r", ["r"]):
            s, e = self.attempt(f, bad, locking=False)
            if not isinstance(e, (TypeError, ValueError)):
                ctx.violation("accepted", "a mode of type %s is accepted" % type(bad).__name__)
        for mode, kw in (("rb", dict(encoding="utf8")), ("RB", dict(errors="strict")), ("wb", dict(newline="\n")), ("WB", dict(encoding="utf8")), ("r", dict(buffering=0)), ("RW", dict(buffering=0)),
                         ("r", dict(closefd=False)), ("W", dict(closefd=False)), ("r", dict(fileno=0, closefd=False)), ("r", dict(handle=0, closefd=False)),
                         ("r", dict(buffering="x")), ("r", dict(encoding=5)), ("r", dict(errors=5)), ("r", dict(newline=5)), ("r", dict(newline="x"))):
            self.what = "mode %r, %r" % (mode, kw)
            with open(f, "wb") as x:
                x.write(b"data")
            s, e = self.attempt(f, mode, locking=False, **kw)
            try:
                if not isinstance(e, (ValueError, TypeError)):
                    self.fail("accepted", "the open gives %r" % (e or s))
                if os.stat(f).st_size != 4 and "w" not in mode.lower():
                    self.fail("changed-though-refused", "a refused open changes the file")
            except Odd:
                pass
            ctx.case(("badargs", mode, repr(kw)))
            if s:
                s.close()
        subprocess.run(["rm", "-rf", d])

    def wrapped(self):
        """Flags other than readability and writability don't apply to wrapped descriptors."""
        ctx, rng = self.ctx, self.rng
        for _ in range(40):
            mode = "".join(rng.sample("RWACNSIEBT", rng.choice([1, 2, 3, 4, 5])))
            t = table(mode)
            p = ctx.fresh("w")
            with open(p, "wb") as f:
                f.write(b"0123456789")
            fl0 = rng.choice([0, os.O_APPEND, os.O_SYNC])
            fd = os.open(p, os.O_RDWR | fl0)
            os.lseek(fd, 4, 0)
            inh = rng.random() < 0.5
            os.set_inheritable(fd, inh)
            fl = fcntl.fcntl(fd, fcntl.F_GETFL)
            self.what = "mode %r wrapping a descriptor" % mode
            s, e = self.attempt(None, mode, fileno=fd, locking=rng.random() < 0.5, timeout=0, closefd=rng.random() < 0.5)
            try:
                if (t is None) != isinstance(e, ValueError) or (e is not None and t is not None):
                    self.fail("wrapping", "the open gives %r" % (e or s))
                if fcntl.fcntl(fd, fcntl.F_GETFL) != fl or os.get_inheritable(fd) != inh or os.fstat(fd).st_size != 10:
                    self.fail("wrapping", "wrapping changes the descriptor or the file")
                if s is not None and (s.readable() != t["read"] or s.writable() != t["write"]):
                    self.fail("able", "readable(), writable() give %s %s" % (s.readable(), s.writable()))
            except Odd:
                pass
            ctx.case(("wrap", frozenset(mode), type(e).__name__, inh))
            ctx.count("wrapped")
            if s is not None:
                s.close()
            try:
                os.close(fd)
            except OSError:
                pass
            os.unlink(p)

    def openers(self):
        """The opener gets flags meaning the mode."""
        ctx, rng = self.ctx, self.rng
        for _ in range(25):
            mode = "".join(rng.sample("RWACNSIEB", rng.choice([1, 2, 3, 4]))) if rng.random() < 0.6 else rng.choice(["r", "r+", "w", "w+b", "a", "ab+", "x", "x+"])
            t = table(mode)
            if t is None:
                continue
            p = ctx.fresh("p")
            if not t["create"]:
                with open(p, "wb") as f:
                    f.write(b"0123456789")
            seen = []
            locking = rng.random() < 0.5

            def opener(name, flags):
                seen.append((name, flags))
                return os.open(name, flags, 0o600)
            self.what = "mode %r with an opener, locking=%s" % (mode, locking)
            s, e = self.attempt(p, mode, opener=opener, locking=locking, timeout=0)
            try:
                if e is not None:
                    self.fail("opener", "the open raises %r" % e)
                if len(seen) != 1 or seen[0][0] != p:
                    self.fail("opener", "the opener is called with %r" % seen)
                fl = seen[0][1]
                acc = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(t["read"], t["write"])]
                if (fl & os.O_ACCMODE) != acc or bool(fl & os.O_APPEND) != t["append"] or bool(fl & os.O_EXCL) != t["create"] or bool(fl & os.O_CREAT) != (not t["nocreate"]):
                    self.fail("opener", "the opener is given the flags %o" % fl)
                if os.stat(p).st_size != (0 if t["erase"] or t["create"] else 10):
                    self.fail("kept-or-erased", "the file has %d bytes" % os.stat(p).st_size)
                if s.readable() != t["read"] or s.writable() != t["write"]:
                    self.fail("able", "readable(), writable() give %s %s" % (s.readable(), s.writable()))
            except Odd:
                pass
            if s is not None:
                s.close()
            ctx.count("openers")
            ctx.case(("opener", frozenset(mode), locking))
            if os.path.exists(p):
                os.unlink(p)

    def raced(self):
        """Another process creates, replaces or deletes the file while the open is at work: the outcome is one the table gives for some order of the two."""
        ctx, rng = self.ctx, self.rng
        for _ in range(8):
            mode = rng.choice(["r", "r+b", "w", "wb", "a", "a+b", "x", "xb", "x+b", "w+b", "RNB", "RWNB", "WEB", "AB", "RAB", "WCB", "RWCB", "RW-B", "RW+B", "WB", "RWB", "RAEB", "ACB", "RAN"])
            t = table(mode)
            p = ctx.fresh("r")
            kind = rng.choice(["appears", "appears", "vanishes", "replaced"])
            q = None
            if kind != "appears":
                with open(p, "wb") as f:
                    f.write(b"older")
            if kind == "replaced":
                q = ctx.fresh("q")
                with open(q, "wb") as f:
                    f.write(b"fresh content")
            kw = dict(locking=rng.random() < 0.4, thread_safe=rng.random() < 0.5, timeout=0)
            if not kw["locking"]:
                del kw["timeout"]
            self.what = "mode %r, %r, a file which %s meanwhile" % (mode, kw, kind)
            res = []
            with shim.Rule(shim.OPEN, shim.STALL_BEFORE, count=1, pid=os.getpid()) as rule:
                th = threading.Thread(target=lambda: res.append(self.attempt(p, mode, **kw)))
                th.start()
                end = time.monotonic() + 20
                while not rule.stalled() and th.is_alive() and time.monotonic() < end:
                    time.sleep(0.0003)
                hit = rule.stalled()
                if hit:
                    if kind == "appears":
                        self.foreign.call("close", self.foreign.call("create", p, b"fresh content"))
                    elif kind == "vanishes":
                        os.unlink(p)
                    else:
                        os.rename(q, p)
                rule.release()
                th.join()
            s, e = res[0]
            try:
                if not hit:
                    # decided without opening anything: the state before must justify it
                    ctx.count("raced_early")
                    if not (kind == "appears" and t["nocreate"] and isinstance(e, FileNotFoundError) or kind != "appears" and t["create"] and isinstance(e, FileExistsError)):
                        self.fail("raced", "without opening any file, the call gives %r" % (e or s,))
                    continue
                ctx.count("raced")
                exists = os.path.lexists(p)
                content = None
                if exists:
                    fd = os.open(p, os.O_RDONLY) if not (s is not None and kw["locking"]) else None
                    if fd is not None:
                        content = os.read(fd, 100)
                        os.close(fd)
                    else:
                        content = b"?" * os.stat(p).st_size
                if kind == "vanishes":
                    if t["nocreate"]:
                        if not isinstance(e, FileNotFoundError) or exists:
                            self.fail("raced", "the open gives %r and the file %s" % (e or s, "is there again" if exists else "is gone"))
                    elif t["create"] and isinstance(e, FileExistsError):
                        if exists:
                            self.fail("raced", "a refused open creates the file")
                    elif e is not None or not exists or content:
                        self.fail("raced", "the open gives %r and the file holds %r" % (e or s, content))
                elif t["create"]:
                    if not isinstance(e, FileExistsError):
                        self.fail("raced", "an exclusive creation gives %r though another process created the file" % (e or s,))
                    if content != b"fresh content":
                        self.fail("raced", "a refused creation leaves %r in the file of another process" % content)
                elif e is not None:
                    self.fail("raced", "the open gives %r" % e)
                elif not exists or len(content) != (0 if t["erase"] else 13):
                    self.fail("raced", "after the open, the file holds %r" % content)
                elif (os.fstat(s.fileno()).st_ino, s.tell() if s.seekable() else 0) != (os.stat(p).st_ino, 13 if t["append"] and not t["erase"] else 0):
                    self.fail("raced", "the stream is on another file, or positioned at %d" % s.tell())
            except Odd:
                pass
            finally:
                ctx.case(("raced", mode, kind, kw["locking"], type(e).__name__), sample={"mode": mode, "file": kind, "outcome": repr(e) if e else "opened"})
                if s is not None:
                    s.close()
                for n in (p, q):
                    if n and os.path.lexists(n):
                        os.unlink(n)

    def unprivileged(self):
        """Access rights decide for a user who isn't root: the reference is a plain os.open with the access the table says."""
        ctx, rng = self.ctx, self.rng
        d = ctx.fresh("u")
        os.mkdir(d)
        os.chmod(d, rng.choice([0o777, 0o755, 0o711, 0o700, 0o733]))
        cases = []
        for i in range(30):
            m = rng.choice([0o000, 0o004, 0o002, 0o006, 0o400, 0o200, 0o644, 0o666, None])
            mode = rng.choice(["r", "rb", "r+b", "wb", "ab", "a+b", "w+b", "xb", "RNB", "RWNB", "WEB", "AB", "RAB", "WCB", "RWB", "RB", "WB"])
            for twin in "ab":
                q = os.path.join(d, "%s%d" % (twin, i))
                if m is not None:
                    with open(q, "wb") as f:
                        f.write(b"secret")
                    os.chmod(q, m)
            cases.append((i, m, mode))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = []
            try:
                os.close(r)
                os.setgroups([])
                os.setresgid(65534, 65534, 65534)
                os.setresuid(65534, 65534, 65534)
                for (i, m, mode) in cases:
                    t = table(mode)
                    fl = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(t["read"], t["write"])]
                    fl |= (os.O_CREAT if not t["nocreate"] else 0) | (os.O_EXCL if t["create"] else 0) | (os.O_APPEND if t["append"] else 0)
                    try:
                        os.close(os.open(os.path.join(d, "a%d" % i), fl, 0o600))
                        ref = None
                    except OSError as e:
                        ref = e.errno
                    try:
                        self.rs.rsopen(os.path.join(d, "b%d" % i), mode, timeout=0).close()
                        got = None
                    except OSError as e:
                        got = e.errno
                    out.append((i, ref, got))
                os.write(w, json.dumps(out).encode())
            except BaseException as e:
                os.write(w, json.dumps(repr(e)).encode())
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            got = json.loads(f.read() or b"null")
        os.waitpid(pid, 0)
        if isinstance(got, list):
            for (i, ref, res) in got:
                ctx.count("unprivileged")
                if ref == errno.EACCES:
                    ctx.count("denied")
                _, m, mode = cases[i]
                ctx.case(("user", mode, m, ref))
                if ref != res:
                    ctx.violation("access-rights", "as an unprivileged user, mode %r on a file with permissions %s gives errno %r instead of %r" % (mode, m if m is None else oct(m), res, ref))
                q = os.path.join(d, "b%d" % i)
                if m is not None and ref is not None and os.stat(q).st_size != 6:
                    ctx.violation("access-rights", "an open denied by access rights changes the file")
        else:
            ctx.count("unprivileged_unavailable")
        subprocess.run(["rm", "-rf", d])


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    j = Judge(ctx, rs)
    adv = ["".join(c) for n in range(1, len(ADV) + 1) for c in itertools.combinations(ADV, n)]
    std = ["".join(c) for n in range(1, len(STD) + 1) for c in itertools.combinations(STD, n)]
    todo = [(m, e) for m in adv[i::8] + std[i::8] for e in (True, False)]
    valid = [m for m in adv + std if table(m)]
    ctx.rng.shuffle(todo)
    for n, (m, e) in enumerate(todo):
        if n % 100 == 0:
            ctx.crumb("mode %s" % m)
        m = list(m)
        ctx.rng.shuffle(m)
        j.one("".join(m), e)
    ctx.count("subsets_covered", len(todo))
    n = 0
    while ctx.more(n, 4, 10 ** 6):
        ctx.crumb("round %d" % n)
        for _ in range(60):
            m = list(ctx.rng.choice(valid))
            ctx.rng.shuffle(m)
            j.one("".join(m), ctx.rng.random() < 0.5)
        j.special()
        j.wrapped()
        j.openers()
        j.unprivileged()
        j.raced()
        n += 1
    j.foreign.stop()
