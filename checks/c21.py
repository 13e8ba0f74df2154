"""C21: the replacement open is a drop-in for the standard one."""
import _pyio, array, fcntl, gc, io, os, pickle, pty, random, shutil, signal, socket, stat, sys, traceback, tty, types, warnings
from lib import clients, shim, vf

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: differential runs. (1) random calls of the patched open() and io classes, valid and not, and random programs on what they return, in lockstep with io (C) and _pyio "
             "over copies of the same directory; (2) programs made of standard library modules (csv, zipfile, tarfile, logging, subprocess, tempfile...) run in child processes, with and without the "
             "patches, comparing results and file trees; an online monitor of the system calls checks that no lock is ever attempted")
NOTE = ("Sampled calls and programs. Accepted extensions: more modes (capital letters), buffering=None. Where io and _pyio differ from each other, either answer is accepted and the program ends there. "
        "repr() and the name of the classes are not compared.")
RULE = ("one program; distinct by (entry point, kind of target, mode, buffering class, outcome, operations made) or by (client program, choices made); non-trivial when it opened a file or was refused.")
BUDGET = {"quick": 12, "thorough": 200}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"programs": 1500, "opened": 800, "refused": 400, "operations": 10000, "trees": 1500, "clients": 150, "devices": 300, "syscalls": 20000}

GROUPS = (OSError, ValueError, TypeError, LookupError, StopIteration, AssertionError, AttributeError, OverflowError, MemoryError, RuntimeError)


def shards(tier, seed):
    return [("p%d" % i, {"i": i}) for i in range(8)]


class Stop(Exception):
    pass


def outcome(fn, *a):
    try:
        return ("value", fn(*a))
    except Exception as e:
        r = ("raise", tuple(g for g in GROUPS if isinstance(e, g)), "%s: %s" % (type(e).__name__, str(e)[:150]), e.errno if isinstance(e, OSError) else None)
        e.__traceback__ = None
        return r


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "value":
        return a[1] == b[1] and type(a[1]) is type(b[1])
    return bool(set(a[1]) & set(b[1])) and (a[3] == b[3] or None in (a[3], b[3]))


def tree(root):
    out = {}
    for base, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(base, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[rel] = (oct(st.st_mode), f.read())
            else:
                out[rel] = (oct(st.st_mode), os.readlink(p) if stat.S_ISLNK(st.st_mode) else None)
    return out


class Raw(io.RawIOBase):
    """A raw stream which is not a file."""

    def __init__(self, data, r, w, short):
        self.d, self.p, self.r, self.w, self.short = bytearray(data), 0, r, w, short

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def readinto(self, b):
        self._checkClosed()
        n = min(len(b), len(self.d) - self.p, self.short)
        n = max(n, 0)
        b[:n] = self.d[self.p:self.p + n]
        self.p += n
        return n

    def write(self, b):
        self._checkClosed()
        b = bytes(b)[:self.short]
        if self.p > len(self.d):
            self.d += bytes(self.p - len(self.d))
        self.d[self.p:self.p + len(b)] = b
        self.p += len(b)
        return len(b)

    def seek(self, o, w=0):
        self._checkClosed()
        p = o + (0, self.p, len(self.d))[w]
        if p < 0:
            raise ValueError("negative position")
        self.p = p
        return p

    def tell(self):
        self._checkClosed()
        return self.p

    def truncate(self, n=None):
        n = self.p if n is None else n
        self.d[n:] = bytes(max(0, n - len(self.d)))
        return n


MODES = ["r", "w", "a", "x", "r+", "w+", "a+", "x+"]


class Trio:
    def __init__(self, ctx, libs):
        self.ctx, self.rng, self.libs = ctx, ctx.rng, libs
        self.roots = [ctx.fresh("t") for _ in range(3)]
        self.log = []
        self.ops = set()
        self.st = []
        self.cfg = None

    def world(self):
        rng = self.rng
        data = rng.choice([b"", b"one\ntwo\r\nthree", b"\xc3\xa9t\xc3\xa9\n" * 30, bytes(range(256)) * 5, b"x" * 20000, b"line of text\n" * 300])
        for r in self.roots:
            os.mkdir(r)
            os.umask(0o022)
            with open(os.path.join(r, "file"), "wb") as f:
                f.write(data)
            os.chmod(os.path.join(r, "file"), 0o640)
            os.mkdir(os.path.join(r, "dir"))
            os.symlink("file", os.path.join(r, "link"))
            os.symlink("nowhere", os.path.join(r, "dangling"))
            os.symlink("dir", os.path.join(r, "dlink"))
            open(os.path.join(r, "empty"), "w").close()
        self.data = data

    def judge(self, what, outs, stop=True, agreed=False):
        a, b, c = outs
        self.ctx.count("operations")
        if agreed and not same(b, c):  # left to the implementation
            self.ctx.count("references_differ")
            raise Stop()
        ok = same(a, b), same(a, c)
        if not any(ok):
            def show(o):
                x = repr(o[1] if o[0] == "value" else o[2])
                return x if len(x) < 200 else x[:100] + "..." + x[-60:]
            self.ctx.violation("differs:" + what.split("(")[0], "%s gives %s, but %s in io and %s in _pyio" % (what, show(a), show(b), show(c)), history=self.log[-30:])
            raise Stop()
        if not all(ok) and stop:
            self.ctx.count("references_differ")
            raise Stop()
        return a

    def do(self, what, fn, **kw):
        self.log.append(what)
        self.ops.add(what.split("(")[0])
        return self.judge(what, [outcome(fn, s, i) for i, s in enumerate(self.st)], **kw)

    # --- arguments
    def target(self):
        """(kind, maker(i) -> argument)."""
        rng = self.rng
        kind = rng.choice(["file", "file", "file", "file", "new", "new", "dir", "link", "dangling", "dlink", "empty", "in-missing", "in-file", "slash", "nothing", "null", "fd", "fd", "fd", "dirfd", "badfd",
                           "negfd", "none", "float", "list", "badpath", "surrogate", "long", "devnull"])
        names = {"new": "new", "in-missing": "missing/x", "in-file": "file/x", "slash": "new/", "null": "a\0b", "surrogate": "s\udcff", "long": "n" * 300}
        if kind in ("file", "link", "dangling", "dlink", "empty", "dir") or kind in names:
            n = names.get(kind, kind)
            form = rng.choice(["str", "str", "bytes", "path", "bpath", "fspath"])

            def make(i):
                p = os.path.join(self.roots[i], n)
                if form == "bytes":
                    return os.fsencode(p)
                if form in ("path", "fspath", "bpath"):
                    class P:
                        def __fspath__(self):
                            return os.fsencode(p) if form == "bpath" else p
                    return P()
                return p
            return kind, make
        if kind == "fd":
            fl = rng.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR, os.O_RDWR | os.O_APPEND])
            off = rng.choice([0, 0, 3])

            def make(i):
                fd = os.open(os.path.join(self.roots[i], "file"), fl)
                os.lseek(fd, off, 0)
                self.fds.append((i, fd))
                return fd
            return "fd%d" % fl, make
        if kind == "dirfd":
            def make(i):
                fd = os.open(self.roots[i], os.O_RDONLY)
                self.fds.append((i, fd))
                return fd
            return kind, make

        class Bad:
            def __fspath__(self):
                return 5
        v = {"nothing": "", "badfd": 12345, "negfd": -1, "none": None, "float": 1.5, "list": [], "badpath": Bad(), "devnull": "/dev/null"}[kind]
        return kind, lambda i: v

    def opener(self, kind):
        rng = self.rng
        how = rng.choice(["plain"] * 3 + ["minus", "raises", "nonint", "dir", "other", "notcallable", "cloexec"])
        calls = [[], [], []]
        if how == "notcallable":
            return how, [5, 5, 5], calls

        def mk(i):
            def op(name, flags):
                calls[i].append((str(os.fspath(name)).replace(self.roots[i], "ROOT"), flags))
                if how == "minus":
                    return -1
                if how == "raises":
                    raise OSError(28, "full")
                if how == "nonint":
                    return "x"
                if how == "dir":
                    fd = os.open(self.roots[i], os.O_RDONLY)
                elif how == "other":
                    fd = os.open(os.path.join(self.roots[i], "file"), os.O_RDWR)
                else:
                    fd = os.open(name, flags, 0o600)
                self.fds.append((i, fd))
                return fd
            return op
        return how, [mk(0), mk(1), mk(2)], calls

    def one(self):
        rng, ctx = self.rng, self.ctx
        self.world()
        self.fds = []
        gc.collect(0)
        before = len(os.listdir("/proc/self/fd"))
        umask = rng.choice([0o022, 0, 0o077])
        calls = None
        entry = rng.choice(["open", "open", "open", "open", "open", "FileIO", "FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper", "BufferedRWPair", "TextBytes"])
        kind, make = self.target() if entry in ("open", "FileIO") or rng.random() < 0.1 else ("file", lambda i: os.path.join(self.roots[i], "file"))
        self.kind = kind
        mode = rng.choice(MODES)
        text = False
        self.raws = [None] * 3
        try:
            if entry == "open":
                text = rng.random() < 0.5
                mode += rng.choice(["", "t"]) if text else "b"
                if rng.random() < 0.2 and "+" in mode:
                    mode = mode.replace("+", "")[0] + mode[2:] + "+"
                if rng.random() < 0.1:
                    mode = rng.choice(["", "rw", "q", "r++", "rbt", "U", "rU", "wx", "+", "b", "rr", None, 3, b"r", "r b", "r+b+", "aw"])
                kw = {}
                if rng.random() < 0.6:
                    kw["buffering"] = rng.choice([-1, -1, 0, 1, 2, 16, 100, 5000, -5] if rng.random() < 0.95 else ["x", 1.5, b"", True, False, 2 ** 70])
                if text and rng.random() < 0.7 or rng.random() < 0.05:
                    kw["encoding"] = rng.choice(["utf-8", "latin-1", "utf-16", "ascii", None] if rng.random() < 0.9 else ["nonsense", "hex", 5, b"utf-8", "", "locale", "a\0"])
                if text and rng.random() < 0.3 or rng.random() < 0.03:
                    kw["errors"] = rng.choice(["strict", "ignore", "replace", "surrogateescape", None] if rng.random() < 0.9 else ["nonsense", 5, ""])
                if text and rng.random() < 0.4 or rng.random() < 0.03:
                    kw["newline"] = rng.choice([None, "", "\n", "\r", "\r\n"] if rng.random() < 0.9 else ["x", 5, b"\n", "\n\n"])
                if rng.random() < 0.3:
                    kw["closefd"] = rng.choice([True, False, 0, 1])
                if rng.random() < 0.2:
                    how, ops, calls = self.opener(kind)
                    kw["opener"] = ops
                    kind += "/opener " + how
                order = ["buffering", "encoding", "errors", "newline", "closefd", "opener"]
                default = dict(buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None)
                style = rng.choice(["keywords", "keywords", "file", "positional"])
                omit = mode == "r" and rng.random() < 0.5

                def construct(i, name):
                    k = {x: (v[i] if x == "opener" else v) for x, v in kw.items()}
                    f = self.libs[i].open
                    if style == "positional":
                        n = max([order.index(x) + 1 for x in k] or [0])
                        return f(name, mode, *[k.get(x, default[x]) for x in order[:n]])
                    if style == "file":
                        return f(file=name, **k) if omit else f(file=name, mode=mode, **k)
                    return f(name, **k) if omit else f(name, mode, **k)
                desc = (entry, kind, mode, style, kw)
            elif entry == "FileIO":
                mode = mode + "b" if rng.random() < 0.3 else mode
                if rng.random() < 0.1:
                    mode = rng.choice(["", "rw", "q", "r++", "rbt", "rt", "U", "wx", "+", "b", None, 3])
                kw = {}
                if rng.random() < 0.4:
                    kw["closefd"] = rng.choice([True, False, 0, 1])
                if rng.random() < 0.25:
                    how, ops, calls = self.opener(kind)
                    kw["opener"] = ops
                    kind += "/opener " + how
                style = rng.choice(["keywords", "file", "positional"])

                def construct(i, name):
                    k = {x: (v[i] if x == "opener" else v) for x, v in kw.items()}
                    f = self.libs[i].FileIO
                    if style == "positional":
                        return f(name, mode, *([k.get("closefd", True)] + ([k["opener"]] if "opener" in k else []) if k else []))
                    return f(file=name, mode=mode, **k) if style == "file" else f(name, mode, **k)
                desc = (entry, kind, mode, style, kw)
            else:
                size = rng.choice([None, None, 1, 2, 16, 100, 5000, 8192] if rng.random() < 0.95 else [0, -1, 1.5, "x"])
                inner = rng.choice(["FileIO", "FileIO", "Raw", "BytesIO"])
                short = rng.choice([1, 3, 10 ** 9])
                bad = rng.random() < 0.08
                fm = {"BufferedReader": ["r", "r+", "a+"], "BufferedWriter": ["w", "a", "x", "r+", "w+"], "BufferedRandom": ["r+", "w+", "a+"], "BufferedRWPair": ["r"],
                      "TextIOWrapper": MODES, "TextBytes": ["r+"]}[entry]
                mode = rng.choice(MODES if bad else fm)
                if "x" in mode:
                    make = lambda i: os.path.join(self.roots[i], "new")
                if entry == "TextBytes" or entry == "TextIOWrapper" and inner == "BytesIO":
                    entry = "TextBytes"
                tk = dict(encoding=rng.choice(["utf-8", "utf-8", "latin-1", "utf-16", None]), errors=rng.choice([None, "replace"]), newline=rng.choice([None, "", "\n", "\r\n"]),
                          line_buffering=rng.random() < 0.2)
                if rng.random() < 0.2:
                    tk["write_through"] = True
                if self.rng.random() < 0.05:
                    tk = dict(tk, **rng.choice([{"encoding": "hex"}, {"encoding": 5}, {"errors": 5}, {"newline": "x"}, {"newline": 3}]))
                text = entry.startswith("Text")

                def raw(i, name):
                    if inner == "FileIO" or entry == "TextIOWrapper":
                        return self.libs[i].FileIO(name, mode)
                    if inner == "Raw":
                        r = Raw(self.data, "r" in mode or "+" in mode, mode[0] in "wax" or "+" in mode, short)
                        self.raws[i] = r
                        return r
                    return io.BytesIO(self.data)

                def construct(i, name):
                    L = self.libs[i]
                    sz = () if size is None else (size,)
                    if entry == "BufferedRWPair":
                        p = io.BufferedRWPair if i == 0 else L.BufferedRWPair
                        return p(L.FileIO(name, "r"), L.FileIO(os.path.join(self.roots[i], "pair"), "w"), *sz)
                    if entry == "TextBytes":
                        b = io.BytesIO(self.data)
                        return L.TextIOWrapper(b, **tk)
                    r = raw(i, name)
                    if entry == "TextIOWrapper":
                        w = mode[0] in "wax"
                        c = L.BufferedRandom if "+" in mode else L.BufferedWriter if w else L.BufferedReader
                        return L.TextIOWrapper(c(r, *sz), **tk)
                    return getattr(L, entry)(r, *sz)
                kw = tk if text else {}
                desc = (entry, inner, mode, size, short if inner == "Raw" else "", kw)
            self.log = [repr(desc)[:300]]
            ctx.crumb(self.log[0])
            os.umask(umask)
            args = [make(i) for i in range(3)]
            outs, warned = [], []
            for i in range(3):
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    outs.append(outcome(construct, i, args[i]))
                warned.append(sorted({w.category.__name__ for w in ws} - {"ResourceWarning"}))
            self.st = [o[1] if o[0] == "value" else None for o in outs]
            key = (entry, kind, str(mode), str(kw.get("buffering", ""))[:4] if entry == "open" else "", outs[0][0])
            if calls is not None:
                self.judge("arguments given to the opener", [("value", c) for c in calls])
            self.judge(self.log[0][:150] + "(", [("value", 1) if o[0] == "value" else o for o in outs])
            if outs[0][0] == "value":
                self.judge("warnings", [("value", w) for w in warned])
            if outs[0][0] == "raise":
                ctx.count("refused")
                ctx.case(key + (outs[0][2][:15],), sample={"call": self.log[0], "outcome": outs[0][2]})
                outs = None
                gc.collect()
                self.alive()
                raise Stop()
            ctx.count("opened")
            s = self.st[0]
            if type(s).__name__ == "RSThreadSafeWrapper" or hasattr(s, "mutex") or not isinstance(s, io.IOBase):
                ctx.violation("wrapper", "%s returned %r, which has a thread-safe interface" % (self.log[0], s))
            s = outs = None
            self.first(entry, text)
            for _ in range(rng.choice([2, 5, 10, 25])):
                self.step(text, entry)
            self.end(entry, text)
            ctx.case(key + (tuple(sorted(self.ops)),), sample={"call": self.log[0], "operations": self.log[1:6]})
        except Stop:
            pass
        finally:
            os.umask(0o022)
            self.close_all()
        self.check_tree(before)

    def close_all(self):
        outs = None
        st, self.st = self.st, []
        for s in st:
            if s is not None:
                try:
                    s.close()
                except Exception:
                    pass
        s = st = None
        gc.collect(0)
        for i, fd in self.fds:
            try:
                os.close(fd)
            except OSError:
                pass

    def alive(self):
        """Whether the descriptors given still are open."""
        res = [[], [], []]
        for i, fd in self.fds:
            try:
                os.fstat(fd)
                res[i].append(True)
            except OSError:
                res[i].append(False)
        self.judge("state of the descriptors passed (%s)" % self.log[0][:100], [("value", r) for r in res], stop=False)

    def check_tree(self, before):
        # where the references differ, or a program was cut, the trees still must be alike, up to what was buffered at that time
        ctx = self.ctx
        ctx.count("programs")
        t = [tree(r) for r in self.roots]
        ctx.count("trees")
        if t[0] != t[1] and t[0] != t[2] and t[1] == t[2]:
            diff = [(k, t[0].get(k), t[1].get(k)) for k in sorted(set(t[0]) | set(t[1])) if t[0].get(k) != t[1].get(k)]
            ctx.violation("tree", "the files differ at the end of %s: %s" % (self.log[0][:150], "; ".join("%s is %.150r instead of %.150r" % d for d in diff)), history=self.log[-30:])
        now = len(os.listdir("/proc/self/fd"))
        if now > before:
            gc.collect()
            now = len(os.listdir("/proc/self/fd"))
        if now > before:
            left = []
            for n in os.listdir("/proc/self/fd"):
                try:
                    p = os.readlink("/proc/self/fd/" + n)
                except OSError:
                    continue
                if p.startswith(self.roots[0]):
                    left.append(p)
                    os.close(int(n))
                elif p.startswith((self.roots[1], self.roots[2])):
                    os.close(int(n))
            if left:
                ctx.violation("descriptor-leak", "descriptors of %s stay open after %s" % (left, self.log[0][:150]), history=self.log[-30:])
        for r in self.roots:
            shutil.rmtree(r)

    # --- operations
    def first(self, entry, text):
        def attrs(s, i):
            out = []
            for a in ("mode", "name", "closefd", "encoding", "errors", "line_buffering", "newlines", "closed", "write_through"):
                try:
                    v = getattr(s, a)
                    if a == "name":
                        v = os.fsdecode(os.fspath(v)) if not isinstance(v, int) else "fd"
                        v = str(v).replace(self.roots[i], "ROOT")
                    out.append((a, v))
                except Exception as e:
                    out.append((a, isinstance(e, AttributeError) or type(e).__name__))
            for m in ("readable", "writable", "seekable", "isatty"):
                out.append((m, outcome(getattr(s, m))[:2]))
            try:
                fd = s.fileno()
                out.append((os.get_inheritable(fd), fcntl.fcntl(fd, fcntl.F_GETFL) & ~(os.O_CLOEXEC | 0o100000)))
            except Exception as e:
                out.append(isinstance(e, OSError))
            return out
        o = [attrs(s, i) for i, s in enumerate(self.st)]
        self.log.append("attributes")
        for x, y, z in zip(*o):
            if isinstance(y, tuple) and y[1] is True and y[0] in ("mode", "name", "closefd"):
                continue  # the streams of rsfile have more attributes
            if x != y and x != z:
                self.ctx.violation("attribute", "after %s: %r, but %r with io and %r with _pyio" % (self.log[0][:200], x, y, z))
                raise Stop()
        K = [("raw", io.RawIOBase), ("buffered", io.BufferedIOBase), ("text", io.TextIOBase)]
        self.judge("layers", [("value", [n for n, k in K if isinstance(s, k)]) for s in self.st])
        if entry != "BufferedRWPair" and not (entry == "open" and "a" not in self.log[0]) or True:
            self.do("tell()", lambda s, i: s.tell())

    def step(self, text, entry):
        rng = self.rng
        st = self.st
        op = rng.choice(["read", "read", "readline", "readlines", "iter", "write", "write", "write", "writelines", "seek", "seek", "seek", "tell", "truncate", "flush", "read1", "readinto", "readinto1", "peek",
                         "readall", "bad", "with", "attr"])
        if getattr(self, "iterating", False) and op in ("write", "writelines", "truncate", "flush"):
            op = "seek"
        if text and op in ("read", "readline", "readlines", "iter") and getattr(self, "wrote", False) or text and op in ("write", "writelines") and getattr(self, "wasread", False):
            w = rng.choice([0, 2])
            self.do("seek(0, %d)" % w, lambda s, i: bool(s.seek(0, w)))
            self.iterating = False
        if op in ("write", "writelines"):
            self.wrote, self.wasread = True, False
        elif op in ("read", "readline", "readlines", "iter"):
            self.wrote, self.wasread = False, True
        n = rng.choice([None, -1, 0, 1, 2, 10, 100, 9000])
        if op == "read":
            self.do("read(%r)" % n, lambda s, i: s.read(n) if n is not None or rng.random() < 2 else s.read())
        elif op == "readline":
            self.do("readline(%r)" % n, lambda s, i: s.readline(-1 if n is None else n))
        elif op == "readlines":
            n = rng.choice([None, -1, 0, 10 ** 6])  # the references disagree on when exactly to stop
            self.do("readlines(%r)" % n, lambda s, i: s.readlines(n))
            self.iterating = text
        elif op == "iter":
            k = rng.choice([1, 3, 10 ** 6])

            def go(s, i):
                out = []
                for x in s:
                    out.append(x)
                    if len(out) >= k:
                        break
                return out
            self.do("iterate(%d)" % k, go)
            self.iterating = text
        elif op in ("write", "writelines"):
            unit = rng.choice([b"a", b"\n", b"xyz\n", b"\xc3\xa9"])
            d = unit * rng.choice([0, 1, 3, 20, 500, 9000 if rng.random() < 0.2 else 2])
            form = rng.choice(["bytes", "bytes", "bytearray", "view", "array"])
            x = d.decode() if text else {"bytes": bytes, "bytearray": bytearray, "view": memoryview, "array": lambda b: array.array("B", b)}[form](d)
            if op == "write":
                self.do("write(%d x %r as %s)" % (len(d) // len(unit), unit, form), lambda s, i: s.write(x))
            else:
                self.do("writelines(%d x %r)" % (len(d), unit), lambda s, i: s.writelines([x, x]))
        elif op == "seek":
            if text:
                w, o = rng.choice([(0, 0), (2, 0), (1, 0)])
                self.do("seek(%d, %d)" % (o, w), lambda s, i: bool(s.seek(o, w)))
            else:
                w, o = rng.choice([(0, 0), (0, 5), (0, 300), (1, 0), (1, 3), (1, -2), (2, 0), (2, -4), (0, -1), (2, -10 ** 6), (0, 30000)])
                self.do("seek(%d, %d)" % (o, w), lambda s, i: s.seek(o, w))
            self.iterating = False
        elif op == "tell":
            # the cookie of a text stream is opaque
            self.do("tell()", (lambda s, i: bool(s.tell())) if text else (lambda s, i: s.tell()))
        elif op == "truncate":
            k = rng.choice([None, 0, 3, 50, 400, -1])
            if self.kind == "fd0":
                return  # refused by the system, unless there is nothing to change
            if text and k is None:
                k = 10
            self.do("truncate(%r)" % k, lambda s, i: s.truncate(k))
            self.do("seek(0)", lambda s, i: s.seek(0))  # the references would still return the data read ahead
        elif op == "flush":
            self.do("flush()", lambda s, i: s.flush())
            self.iterating = False
            if all(o is None for o in self.raws):
                t = [tree(r) for r in self.roots]
                self.judge("files after flush(", [("value", x) for x in t])
        elif op == "read1":
            if text:
                return

            def read1(s, i):
                s.read1
                out, left = b"", n if n and n > 0 else 10
                while left:
                    x = s.read1(left)
                    if not x:
                        break
                    out += x
                    left -= len(x)
                return out
            self.do("read1(...%r)" % n, read1)
        elif op in ("readinto", "readinto1"):
            k = n if n and n > 0 else 7

            def into(s, i):
                b = bytearray(k)
                m = getattr(s, op)
                got = 0
                while got < k:
                    r = m(memoryview(b)[got:])
                    if not r:
                        break
                    got += r
                    if op == "readinto":
                        break
                return got, bytes(b)
            if text:
                return
            self.do("%s(%d)" % (op, k), into)
        elif op == "peek":
            if not text:
                self.do("peek(1)", lambda s, i: s.peek(1)[:1])
        elif op == "readall":
            if isinstance(st[1], io.RawIOBase):
                self.do("readall()", lambda s, i: s.readall())
        elif op == "attr":
            for a in ("closed", "newlines", "encoding", "line_buffering"):
                self.do(a, lambda s, i: getattr(s, a))
        elif op == "with":
            self.do("__enter__", lambda s, i: s.__enter__() is s)
        elif op == "bad":
            k = rng.randrange(13)
            fn = [lambda s, i: s.write("x" if not text else b"x"), lambda s, i: s.write(5), lambda s, i: s.seek("x"), lambda s, i: s.seek(0, 77), lambda s, i: s.read("x"), lambda s, i: s.readinto(b"const"),
                  lambda s, i: s.writelines(3), lambda s, i: s.truncate("x"), lambda s, i: s.nosuch, lambda s, i: pickle.dumps(s) and None, lambda s, i: s.read(1, 2, 3), lambda s, i: s.readline("x"),
                  lambda s, i: s.seek(1.5)][k]
            if text and k == 5 or k == 7 and self.kind == "devnull" or k == 3 and self.kind[:2] == "fd":
                return
            self.do("bad%d()" % k, fn)

    def end(self, entry, text):
        rng = self.rng
        how = rng.choice(["close", "close", "with", "del", "detach"])
        if how == "del":
            self.log.append("del")
            s = None
            self.st = []
            gc.collect()
            self.alive()
            return
        if how == "detach":
            d = [None] * 3

            def detach(s, i):
                d[i] = s.detach()
                return d[i] is not None
            self.do("detach()", detach)

            def detached(s, i):
                try:
                    return s.read(1)
                except (ValueError, AttributeError):  # both are met in the standard library (see _pyio)
                    raise ValueError("detached")
            self.do("read(1) when detached", detached)
            if None not in d:
                self.st = d
                self.do("tell() of what was detached", lambda s, i: s.tell(), agreed=True)  # how far was read ahead
        if how == "with":
            self.do("with", lambda s, i: s.__enter__() and s.__exit__(None, None, None))
        self.do("close()", lambda s, i: s.close())
        self.alive()
        if any(r is not None for r in self.raws):
            self.judge("content of the raw stream(", [("value", bytes(r.d)) for r in self.raws])
        for what, fn in (("closed", lambda s, i: s.closed), ("read()", lambda s, i: s.read()), ("write()", lambda s, i: s.write("x" if text else b"x")), ("seek(0)", lambda s, i: s.seek(0)),
                         ("tell()", lambda s, i: s.tell()), ("fileno()", lambda s, i: s.fileno()), ("flush()", lambda s, i: s.flush()), ("truncate(0)", lambda s, i: s.truncate(0)),
                         ("next()", lambda s, i: next(s)), ("isatty()", lambda s, i: s.isatty()), ("__enter__()", lambda s, i: s.__enter__() is s), ("close()", lambda s, i: s.close())):
            self.do(what + " when closed", fn)


# ------------------------------------------------------------------------------------------------
# programs using the standard library

HUNG = "TimeoutError: the call does not return"


class Peer:
    """One end of a terminal, pipe, socket or device, the other being what the stream is opened on."""

    def __init__(self, kind, direction, root):
        self.kind, self.fds, self.root = kind, [], root
        self.far = None  # descriptor on our side
        if kind in ("pty", "pty-fd"):
            m, sl = pty.openpty()
            tty.setraw(sl)
            self.far = m
            if kind == "pty":
                self.arg, self.spare = os.ttyname(sl), [sl]
            else:
                self.arg, self.spare = sl, []
        elif kind == "fifo":
            p = os.path.join(root, "fifo")
            os.mkfifo(p)
            self.far = os.open(p, os.O_RDWR | os.O_NONBLOCK)
            self.arg, self.spare = p, []
        elif kind == "pipe":
            r, w = os.pipe()
            self.arg, self.far, self.spare = (r, w, []) if direction == "r" else (w, r, [])
        elif kind == "socket":
            a, b = socket.socketpair()
            self.arg, self.far, self.spare = a.detach(), b.detach(), []
        elif kind == "file":
            self.arg, self.spare = os.path.join(root, "f"), []
            with open(self.arg, "wb") as f:
                f.write(b"first line\nsecond one\nthird\n")
        else:
            self.arg, self.spare = kind, []  # a device
        if self.far is not None:
            os.set_blocking(self.far, False)

    def feed(self, data):
        if self.far is not None:
            os.write(self.far, data)

    def hangup(self):
        if self.far is not None:
            os.close(self.far)
            self.far = None

    def arrived(self):
        if self.kind == "file":
            with open(self.arg, "rb") as f:
                return f.read()
        out = b""
        try:
            while self.far is not None:
                d = os.read(self.far, 65536)
                if not d:
                    break
                out += d
        except OSError:
            pass
        return out

    def close(self):
        self.hangup()
        for fd in self.spare + ([self.arg] if isinstance(self.arg, int) else []):
            try:
                os.close(fd)
            except OSError:
                pass


def devices(ctx, libs):
    """What reaches the other side of a terminal, pipe, socket or device, and when."""
    rng = ctx.rng
    kind = rng.choice(["pty", "pty", "pty-fd", "fifo", "pipe", "socket", "file", "file", "/dev/null", "/dev/zero", "/dev/full"])
    direction = rng.choice("rww") if kind != "/dev/full" else "w"
    binary = rng.random() < 0.4
    mode = direction + rng.choice(["", "", "", "+"] if binary and kind in ("pty", "pty-fd", "fifo", "socket", "/dev/null") else [""]) + ("b" if binary else rng.choice(["", "t"]))
    if kind == "file" and direction == "w" and rng.random() < 0.3:
        mode = mode.replace("w", "a")
    kw = {}
    buffering = rng.choice([None, None, -1, 1, 1, 100] + ([0, 0] if binary else []))
    if buffering is not None:
        kw["buffering"] = buffering
    if not binary:
        kw["encoding"] = "utf8"
        if rng.random() < 0.4:
            kw["newline"] = rng.choice(["", "\n", "\r\n", "\r"])
    conv = (lambda x: x.encode()) if binary else (lambda x: x)
    steps = []
    for _ in range(rng.randrange(2, 7)):
        if direction == "w":
            steps.append(rng.choice([("write", rng.choice(["abc", "line\n", "two\nlines\n", "end\nrest", "car\rriage", "", "\n", "\u00e9\n"])), ("write", "word\n"), ("flush",), ("attrs",),
                                     ("writelines", ["a\n", "b", "c\nd"]), ("tell",), ("reconfigure", rng.random() < 0.5)]))
        else:
            steps.append(rng.choice([("readline",), ("readline",), ("attrs",), ("read", rng.choice([1, 3, 5])), ("tell",), ("peek",), ("next",)]) if kind != "/dev/zero" else rng.choice([("read", 3), ("attrs",), ("peek",)]))
    what = "open of a %s, mode %s, %r" % (kind, mode, kw)
    log = []
    peers, streams, outs = [], [None] * 3, []

    def judge(what, outs):
        ctx.count("device_operations")
        log.append(what)
        a, b, c = outs
        ok = same(a, b), same(a, c)
        if not any(ok):
            ctx.violation("device:" + kind, "%s: after %s, %s, but %s in io and %s in _pyio" % (log[0], what, a[1:], b[1:], c[1:]), history=log)
            raise Stop()
        if not all(ok):
            ctx.count("references_differ")
            raise Stop()
        return a

    def ring(*_):
        raise TimeoutError(HUNG[14:])  # an OSError: a group in common

    def each(what, fn, see=True):
        res = []
        for i in range(3):
            signal.setitimer(signal.ITIMER_REAL, 10)
            try:
                o = outcome(fn, i)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if see and direction == "w":
                o = o + (peers[i].arrived(),) if o[0] == "raise" else ("value", (o[1], peers[i].arrived()))
            res.append(o)
        return judge(what, res)

    old = signal.signal(signal.SIGALRM, ring)
    roots = [ctx.fresh("v") for _ in range(3)]
    how = None
    try:
        for r in roots:
            os.mkdir(r)
            peers.append(Peer(kind, direction, r))
            if direction == "r":
                peers[-1].feed(b"first line\r\nsecond one\r\nthird\r\nfourth\r\n5\r\n6\r\n7\r\n" * 2)

        def construct(i):
            streams[i] = libs[i].open(peers[i].arg, mode, **kw)
            if isinstance(peers[i].arg, int):
                peers[i].arg = "-"  # the stream owns it
        how = each(what, construct)
        if how[0] == "raise":
            return
        for st in steps:
            def go(i):
                s = streams[i]
                if st[0] == "write":
                    return s.write(conv(st[1]))
                if st[0] == "writelines":
                    return s.writelines([conv(x) for x in st[1]])
                if st[0] == "attrs":
                    return [s.isatty(), s.seekable(), s.readable(), s.writable(), getattr(s, "line_buffering", None), getattr(s, "encoding", None), s.closed]
                if st[0] == "reconfigure":
                    return s.reconfigure(line_buffering=st[1]) if hasattr(s, "reconfigure") and hasattr(libs[0].TextIOWrapper, "reconfigure") else None
                if st[0] == "peek":
                    return s.peek(1)[:1] if binary and buffering != 0 else None
                if st[0] == "next":
                    return next(s)
                return getattr(s, st[0])(*st[1:])
            if st[0] == "write" and kind == "/dev/full":
                st = ("write", st[1][:3])
            if each(repr(st), go)[2:3] == (HUNG,):
                ctx.count("device_hangs")
                return
        if direction == "r" and "+" not in mode and kind not in ("/dev/zero", "file", "/dev/null"):
            for q in peers:
                q.hangup()
            each("read() to the end", lambda i: streams[i].read())
        each("close()", lambda i: streams[i].close())
    except Stop:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.count("devices")
        for s in streams:
            if s is not None:
                try:
                    s.close()
                except Exception:
                    pass
        for q in peers:
            q.close()
        for r in roots:
            shutil.rmtree(r, ignore_errors=True)
        ctx.case(("device", kind, mode, buffering, how and how[0], tuple(x.split(",")[0] for x in log[1:])), nontrivial=len(log) > 1, sample={"target": kind, "mode": mode, "history": log[:6]})


def client(ctx, rf, fn, seed, patched, d):
    """Runs a client program in a child process: returns (result, tree, lock calls, kinds of streams met)."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            os.umask(0o022)
            signal.alarm(60)
            if patched:
                rf.rsfile_utilities.monkey_patch_io_module()
                rf.rsfile_utilities.monkey_patch_open_builtin()
                if patched == 2:
                    import _io
                    rf.rsfile_utilities.monkey_patch_io_module(_io)
            shim.reset()
            try:
                res = ("value", fn(random.Random(seed), d))
            except BaseException as e:
                res = ("raise", type(e).__name__, traceback.format_exc().replace(d, "DIR")[-1500:])
            gc.collect()
            recs = shim.records()
            locks = sum(1 for x in recs if x.call == shim.FCNTL and x.a in (5, 6, 7, 36, 37, 38))
            with io.open(w, "wb") if not patched else rf.rsfile_definitions.original_io_open(w, "wb") as f:
                f.write(pickle.dumps((res, locks, len(recs), type(open).__name__)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with open(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        return None
    return pickle.loads(raw) + (tree(d),)


def differ(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
    return "..." + a[max(0, i - 60):i + 150], "..." + b[max(0, i - 60):i + 150]


def clean(x, d):
    """Paths and temporary names have no importance."""
    return repr(x).replace(d, "DIR")


def run_client(ctx, rf, fn, seed):
    outs = []
    d = os.path.join(ctx.dir, "client")
    for patched in (0, ctx.rng.choice([1, 1, 2])):
        os.mkdir(d)
        ctx.crumb("client %s seed %s patched %s" % (fn.__name__, seed, patched))
        outs.append(client(ctx, rf, fn, seed, patched, d))
        shutil.rmtree(d)
    a, b = outs
    ctx.count("clients")
    if a is None or a[0][0] == "raise":
        ctx.count("client_trouble")  # the program itself fails here
        if os.environ.get("VERIF_DBG"):
            print(fn.__name__, a and a[0])
        return
    if b is None:
        ctx.violation("client-dead", "the program %s (seed %s) dies when run on rsfile" % (fn.__name__, seed))
        return
    ctx.count("syscalls", b[2])
    if b[1]:
        ctx.violation("lock", "%d locks attempted by the program %s, which only uses the replacement open" % (b[1], fn.__name__))
    if b[0][0] == "raise":
        ctx.violation("client-fails:" + fn.__name__, "the program %s (seed %s) works on the standard io module and raises %s on rsfile" % (fn.__name__, seed, b[0][1]), traceback=b[0][2])
    elif a[0] != b[0]:
        ctx.violation("client-result:" + fn.__name__, "the program %s (seed %s) gives %s instead of %s" % ((fn.__name__, seed) + differ(b[0][1], a[0][1])))
    ta, tb = a[4], b[4]
    if ta != tb:
        diff = [(k, tb.get(k), ta.get(k)) for k in sorted(set(ta) | set(tb)) if ta.get(k) != tb.get(k)]
        ctx.violation("client-tree:" + fn.__name__, "the files made by %s (seed %s) differ: %s" % (fn.__name__, seed, "; ".join("%s is %.120r instead of %.120r" % x for x in diff[:4])))
    ctx.case(("client", fn.__name__, clean(a[0], d)), sample={"client": fn.__name__, "files": sorted(ta)[:5]})


def run(ctx, i):
    rf = vf.import_rsfile()
    import rsfile.rsfile_utilities
    ns = types.SimpleNamespace()
    rsfile.rsfile_utilities.monkey_patch_io_module(ns)
    if isinstance(ns.open, staticmethod):
        ns.open = ns.open.__func__
    shim.start(ctx.dir)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGHUP, signal.SIG_IGN)  # terminals opened by a session leader become its own
    n = 0
    while ctx.more(n, 60, 10 ** 9):
        if n % 8 == 7:
            fn = ctx.rng.choice(clients.CLIENTS)
            run_client(ctx, rf, fn, ctx.rng.getrandbits(30))
        elif n % 8 == 3:
            for _ in range(3):
                devices(ctx, [ns, io, _pyio])
        else:
            shim.reset()
            Trio(ctx, [ns, io, _pyio]).one()
            recs = shim.records()
            ctx.count("syscalls", len(recs))
            for x in recs:
                if x.call == shim.FCNTL and x.a in (5, 6, 7, 36, 37, 38):
                    ctx.violation("lock", "a lock is attempted through the replacement open: %r" % x)
                    break
        n += 1
