"""C11: text streams behave exactly like the standard library text streams."""
import _pyio, io, json, os, random, shutil, subprocess, sys, traceback
from lib import vf

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the same random operation sequence runs in lockstep on an rsfile text stream, io.open() (C) and _pyio.open() over copies of the same file; "
             "each result, exception and file state of rsfile must be that of one of the two references")
NOTE = "Sampled sequences, encodings and contents. Where the two standard implementations differ from each other, either answer is accepted and the sequence ends there."
RULE = ("one operation of a sequence on a text stream, compared with the two standard implementations; distinct by (encoding, errors, newline, buffering class, mode, "
        "operation, outcome class); non-trivial when it returns or writes characters, moves, or raises.")
BUDGET = {"quick": 11, "thorough": 240}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"ops": 5000, "cookies_used": 300, "disk_compared": 500, "raising": 100, "locale_opens": 300, "locale_other": 1}

# iso2022_* are not used: seek() makes the C decoders of CPython 3.12 crash, whatever the stream
ENC = ["utf-8"] * 5 + [None, "utf-8-sig", "utf-16", "utf-16", "utf-16-le", "utf-32", "utf-32-be", "latin-1", "ascii", "cp1252", "utf-7", "shift_jis", "euc_jp", "gb18030",
                       "hz", "big5", "cp437", "euc_kr", "utf_8_sig"]
ERRS = [None, None, None, "strict", "ignore", "replace", "backslashreplace", "surrogateescape", "xmlcharrefreplace", "surrogatepass", "namereplace", "no-such-handler"]
NL = [None, None, "", "\n", "\r", "\r\n"]
MODES = [("r", "r"), ("r", "r"), ("rt", "rt"), ("RN", "r"), ("w", "w"), ("WE", "w"), ("a", "a"), ("A", "a"), ("r+", "r+"), ("r+", "r+"), ("RWN", "r+"), ("r+t", "r+t"), ("w+", "w+"), ("w+", "w+"),
         ("RWE", "w+"), ("a+", "a+"), ("RA", "a+"), ("RAT", "a+"), ("x", "x"), ("x+", "x+"), ("RWC", "x+"), ("RWNT", "r+")]
ALPHA = ["abc", "x", "\n", "\n", "\r", "\r\n", "é", "ß", "日本", "語", "テ", "한", "😀", "\u2028", "\x0b", "\x85", "\0", " ", "long word ", "+", "~{", "\ufeff", "z" * 30, "\t", "\udc80", "€"]
GROUPS = (OSError, ValueError, TypeError, LookupError, StopIteration, AssertionError, AttributeError, OverflowError)


def shards(tier, seed):
    return [("t%d" % i, {"i": i}) for i in range(8)]


def text(rng, n):
    plain = rng.random() < 0.3
    return "".join(rng.choice(ALPHA[:5] if plain else ALPHA) for _ in range(n))


def outcome(fn, s, i):
    try:
        return ("value", fn(s, i))
    except StopIteration:
        return ("raise", (StopIteration,), "StopIteration")
    except Exception as e:
        return ("raise", tuple(g for g in GROUPS if isinstance(e, g)), "%s: %s" % (type(e).__name__, str(e)[:200]))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "value":
        return a[1] == b[1] and type(a[1]) is type(b[1])
    return bool(set(a[1]) & set(b[1]))


class Stop(Exception):
    pass


class Trio:
    def __init__(self, ctx, rs):
        self.ctx, self.rs, self.rng = ctx, rs, ctx.rng
        self.log = []

    def compare(self, what, outs):
        a, b, c = outs
        self.ctx.count("ops")
        if a[0] == "raise":
            self.ctx.count("raising")
        ok = same(a, b), same(a, c)
        if not any(ok):
            def show(o):
                x = repr(o[1] if o[0] == "value" else o[2])
                return x if len(x) < 160 else x[:80] + "..." + x[-60:]
            self.ctx.violation("differs:" + what.split("(")[0], "%s gives %s, but %s in io and %s in _pyio (%s)" % (what, show(a), show(b), show(c), self.log[0]), history=self.log[-40:])
            raise Stop()
        return all(ok)

    def do(self, what, fn, key=None):
        self.log.append(what)
        if os.environ.get("VERIF_DBG"):
            self.ctx.crumb("\n".join(self.log))
        outs = [outcome(fn, s, i) for i, s in enumerate(self.st)]
        if not self.compare(what, outs):
            self.ctx.count("references_differ")
            if os.environ.get("VERIF_DBG"):
                self.ctx.count("RD " + what.split("(")[0]+ " ".join(o[0][0]+str(o[2] if o[0]=="raise" else "")[:24] for o in outs))
            if any(o[0] != "raise" for o in outs) and what not in ("newlines",):
                raise Stop()
        a = outs[0]
        self.ctx.case((self.cfg, key or what.split("(")[0], a[0] if a[0] == "value" else a[2][:20]), a[0] == "raise" or bool(a[1]), sample={"operations": self.log[-5:], "outcome": repr(a)[:200]})
        return a

    def disk(self, why):
        self.ctx.count("disk_compared")
        data = []
        for p in self.paths:
            with open(p, "rb") as f:
                data.append(f.read())
        a, b, c = data
        if a != b and a != c:
            i = next((i for i in range(min(len(a), len(c))) if a[i] != c[i]), min(len(a), len(c)))
            self.ctx.violation("disk", "after %s the file holds ...%r, but ...%r with io and ...%r with _pyio, from offset %d (%s)" % (why, a[i:i + 30], b[i:i + 30], c[i:i + 30], i, self.log[0]), history=self.log[-40:])
            raise Stop()
        if not a == b == c:
            self.ctx.count("references_differ")
            raise Stop()

    def one(self):
        rng, ctx = self.rng, self.ctx
        enc, errs, nl = rng.choice(ENC), rng.choice(ERRS), rng.choice(NL)
        mode, std = rng.choice(MODES)
        buf = rng.choice([-1, None, 1, 2, 3, 5, 16, 64, 500, 8192, 0 if rng.random() < 0.1 else -1])
        if rng.random() < 0.05:
            enc = rng.choice(["no-such-codec", "hex", "base64", "rot13", ""])
        if rng.random() < 0.03:
            nl = rng.choice(["x", "\n\r", b"\n", 5])
        data = text(rng, rng.choice([0, 1, 3, 10, 40, 200]))
        try:
            raw = data.encode(enc or "utf-8", "ignore" if rng.random() < 0.7 else "surrogatepass")
        except Exception:
            raw = data.encode("utf-8", "ignore")
        k = rng.random()
        if k < 0.1:
            raw = rng.randbytes(rng.choice([1, 5, 60]))
        elif k < 0.2 and raw:
            raw = raw[:rng.randrange(len(raw))]
        self.paths = [ctx.fresh("t") for _ in range(3)]
        if "x" not in std:
            for p in self.paths:
                with open(p, "wb") as f:
                    f.write(raw)
        self.cfg = (enc, errs, nl, "line" if buf == 1 else "small" if buf and 0 < buf < 20 else "big", mode)
        kw = dict(encoding=enc, errors=errs, newline=nl)
        extra = dict(locking=False, thread_safe=rng.random() < 0.5)
        if os.environ.get("VERIF_DBG"):
            ctx.crumb(repr((enc, errs, nl, mode, buf)))
        self.log = ["open(%r, buffering=%r, %r, %r) on %d bytes" % (mode, buf, kw, extra, len(raw))]
        self.st = []
        chunk = rng.choice([None, None, None, 1, 2, 3, 7, 50])
        rkw = dict(kw, **extra)
        if buf is not None or rng.random() < 0.5:
            rkw["buffering"] = buf
        try:
            outs = [outcome(lambda s, i: self.rs.rsopen(self.paths[0], mode, **rkw), None, 0),
                    outcome(lambda s, i: io.open(self.paths[1], std, -1 if buf is None else buf, **kw), None, 1),
                    outcome(lambda s, i: _pyio.open(self.paths[2], std, -1 if buf is None else buf, **kw), None, 2)]
            self.st = [o[1] for o in outs if o[0] == "value"]
            if not all(o[0] == "value" for o in outs):
                self.compare("open", [("value", 1) if o[0] == "value" else o for o in outs])
                ctx.case((self.cfg, "open", outs[0][0]))
                raise Stop()
            if chunk:
                for s in self.st:
                    getattr(s, "wrapped_stream", s)._CHUNK_SIZE = chunk
            self.lost = False
            self.cookies, self.iterating, self.lastkind, self.ahead, self.wasread = [], False, None, False, False
            for _ in range(rng.choice([3, 8, 20, 40])):
                self.step(std, enc)
            if rng.random() < 0.15:
                d = []
                self.do("detach()", lambda s, i: d.append(s.detach()) or type(d[-1]).__name__.replace("RS", ""))
                for x in d:
                    x.close()
            else:
                self.do("close()", lambda s, i: s.close())
                self.do("closed", lambda s, i: s.closed)
                self.do("read()", lambda s, i: s.read())
                self.do("write()", lambda s, i: s.write("x"))
                self.do("flush()", lambda s, i: s.flush())
                self.do("next()", lambda s, i: next(s))
                self.do("tell()", lambda s, i: s.tell())
                self.do("close()", lambda s, i: s.close())
            self.disk("close()")
            ctx.count("sequences_completed")
        except Stop:
            pass
        finally:
            for s in self.st:
                try:
                    s.close()
                except Exception:
                    pass
            for p in self.paths:
                try:
                    os.unlink(p)
                except OSError:
                    pass

    def step(self, std, enc):
        rng = self.rng
        r, w = "r" in std or "+" in std, std[0] in "wax" or "+" in std
        op = rng.choice(["read", "read", "readline", "next", "readlines", "iter", "write", "write", "write", "writelines", "tell", "tell", "seek", "seek", "seek0", "seekend",
                         "seekcur", "truncate", "flush", "size", "sync", "lock", "attr", "bad", "reconf"])
        kind = "r" if op in ("read", "readline", "next", "readlines", "iter") else "w" if op in ("write", "writelines", "truncate") else None
        if kind == "r" and not r or kind == "w" and not w:
            if rng.random() < 0.9:
                return
        elif kind and self.lastkind and kind != self.lastkind and rng.random() < 0.9:
            how = rng.randrange(3)
            if how == 0:
                self.seek_cookie()
            elif how == 1:
                self.do("seek(0, 2)", lambda s, i: bool(s.seek(0, 2)))
            else:
                self.do("seek(0)", lambda s, i: s.seek(0))
            if how:
                self.iterating = self.lost = False
        if kind:
            self.lastkind = kind
            self.wasread = self.wasread or kind == "r"
        if op == "read":
            n = rng.choice([None, -1, 0, 1, 2, 5, 20, 300])
            self.do("read(%r)" % n, lambda s, i: s.read(n), "read%r" % (n,))
        elif op == "readline":
            n = rng.choice([None, -1, 0, 1, 3, 10])
            self.do("readline(%r)" % n, lambda s, i: s.readline() if n is None else s.readline(n))
        elif op == "next":
            o = self.do("next()", lambda s, i: next(s))
            self.lost = self.iterating = "StopIteration" not in o[2:]  # even when it fails, eg. on undecodable data
        elif op == "readlines":
            n = rng.choice([None, -1, 0, 1, 10])
            self.do("readlines(%r)" % n, lambda s, i: s.readlines() if n is None else s.readlines(n))
            # readlines() iterates, so the position may not be available afterwards
            self.lost = self.iterating = True
        elif op == "iter":
            n = rng.choice([2, 10 ** 9])

            def go(s, i):
                out = []
                for x in s:
                    out.append(x)
                    if len(out) == n:
                        break
                return out
            self.do("iterate(%d)" % n, go)
            self.lost = self.iterating = True
        elif op == "write":
            x = text(rng, rng.choice([0, 1, 2, 5, 30, 300]))
            self.do("write(%r)" % x[:60], lambda s, i: s.write(x))
            if self.cfg[3] == "line" and not self.ahead and ("\n" in x or "\r" in x):
                self.disk("a line-buffered write")
        elif op == "writelines":
            xs = [text(rng, rng.choice([0, 2, 10])) for _ in range(3)]
            self.do("writelines(%r)" % repr(xs)[:60], lambda s, i: s.writelines(list(xs)))
        elif op == "tell":
            c = [None] * 3

            def tell(s, i):
                c[i] = s.tell()
                return True
            if self.do("tell()", tell)[0] == "value":
                self.cookies.append(c)
        elif op == "seek":
            self.seek_cookie()
        elif op == "seek0":
            self.do("seek(0)", lambda s, i: s.seek(0))
            self.iterating = self.lost = False
        elif op == "seekend":
            self.do("seek(0, 2)", lambda s, i: bool(s.seek(0, 2)))
            self.iterating = self.lost = False
        elif op == "seekcur":
            if self.do("seek(0, 1)", lambda s, i: bool(s.seek(0, 1)))[0] == "value":
                self.iterating = False
        elif op == "truncate":
            n = rng.choice([None, 0, 2, 4, 8, 100, -1])
            if n is None and self.iterating:
                return
            self.do("truncate(%r)" % n, lambda s, i: s.truncate(n), "truncate")
            self.lost = self.iterating = True  # flushed or not
            self.disk("truncate(%r)" % n)
            if n is not None:  # the references would still return the data read ahead, which doesn't exist anymore
                self.do("seek(0)", lambda s, i: s.seek(0))
                self.iterating = False
                self.cookies = []
        elif op == "flush":
            if self.do("flush()", lambda s, i: s.flush())[0] == "value":
                self.iterating = False
            self.disk("flush()")
        elif op in ("size", "sync"):
            # extensions of rsfile: they flush, and otherwise change nothing
            if self.iterating:
                self.log.append(op + "() by rsfile only")
                self.ahead = True  # data which the references still keep in memory might be on disk
                getattr(self.st[0], op)()
                return

            def size(s, i):
                if i:
                    s.flush()
                    return os.fstat(s.fileno()).st_size if op == "size" else None
                return getattr(s, op)()
            self.do(op + "()", size)
            self.disk(op + "()")
        elif op == "lock":
            if self.iterating or self.lost:
                return  # the position isn't available, even once flush() reenabled tell(), which then makes it up
            if rng.random() < 0.5:
                def lock(s, i):
                    if not i:
                        with s.lock_file(timeout=0, shared=not w):
                            pass
                    else:
                        s.seek(0, 1)
                        s.flush()
            else:
                def lock(s, i):
                    if not i:
                        s.lock_file(timeout=0, shared=not w)
                        s.unlock_file()
                    else:
                        s.seek(0, 1)
                        s.seek(0, 1)
            self.do("lock and unlock", lock)
            self.disk("locking and unlocking")
        elif op == "attr":
            for a in ("encoding", "errors", "line_buffering", "newlines", "write_through", "closed", "mode"):
                self.do(a, lambda s, i: (getattr(s, a) if a != "mode" or i == 0 or self.cfg[4].islower() else self.cfg[4]))
            for a in ("readable", "writable", "seekable", "isatty"):
                self.do(a + "()", lambda s, i: getattr(s, a)())
            self.do("name", lambda s, i: s.name == self.paths[i])
            self.do("fileno()", lambda s, i: s.fileno() == s.buffer.fileno())
            self.do("iter()", lambda s, i: iter(s) is s)
        elif op == "reconf":
            if self.wasread and rng.random() < 0.9:
                return
            kw = rng.choice([{"line_buffering": True}, {"line_buffering": False}, {"newline": "\n"}, {"newline": None}, {"newline": ""}, {"errors": "replace"}, {"encoding": "latin-1"},
                             {"write_through": True}, {"encoding": "utf-8"}, {}])
            if self.do("reconfigure(%r)" % kw, lambda s, i: s.reconfigure(**kw), "reconfigure")[0] == "value":
                self.iterating = False
            self.cookies = []  # a decoder must not be given the state of another one
        else:
            k = rng.randrange(9)
            fn = [lambda s, i: s.write(b"bytes"), lambda s, i: s.write(None), lambda s, i: s.seek(-1), lambda s, i: s.seek(5, 1), lambda s, i: s.seek(-5, 2), lambda s, i: s.seek(0, 99),
                  lambda s, i: s.readinto(bytearray(3)), lambda s, i: s.writelines(5), lambda s, i: s.read("x")][k]
            if k == 6:
                def fn(s, i):
                    if i:
                        raise TypeError("text streams can't be read into a buffer")
                    return s.readinto(bytearray(3))
            self.do("bad%d()" % k, fn)

    def seek_cookie(self):
        rng = self.rng
        if self.cookies and rng.random() < 0.8:
            c = rng.choice(self.cookies)
            o = self.do("seek(cookie %r)" % c[0], lambda s, i: s.seek(c[i]) == c[i], "seek(cookie)")
            if o[0] == "value":
                self.ctx.count("cookies_used")
                self.iterating = self.lost = False
        elif self.do("seek(tell())", lambda s, i: bool(s.seek(s.tell())))[0] == "value":
            self.iterating = False


def locales(ctx):
    """The default encoding depends on how the interpreter was started: the same as that of the standard open(), whatever it is."""
    rng = ctx.rng
    env = dict(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0") if ctx.shard == "t0" or rng.random() < 0.6 else rng.choice([dict(LC_ALL="C", PYTHONUTF8="1"), dict(LC_ALL="C.UTF-8", PYTHONUTF8="0"), dict(LC_ALL="POSIX"),
                                                                                       dict(PYTHONIOENCODING="latin-1", LC_ALL="C.UTF-8")])
    d = ctx.fresh("locale")
    os.mkdir(d)
    base = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    base.update(env, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(vf.VERIF, "lib", "locale_child.py"), vf.SRC, str(rng.getrandbits(30))], cwd=d, env=base, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=100)
    shutil.rmtree(d)
    if r.returncode:
        ctx.violation("locale-child", "a program using rsfile fails when started with %r" % env, stderr=r.stderr.decode(errors="replace")[-1500:])
        return
    seen, odd, enc = json.loads(r.stdout)
    ctx.count("locale_opens", seen)
    if enc.lower().replace("-", "") != "utf8":
        ctx.count("locale_other", seen)
    for o in odd[:3]:
        ctx.violation("locale", "with %r, the outcome is not that of the standard open(): %s" % (env, " ".join(map(str, o))[:700]))
    ctx.case(("locale", tuple(sorted(env.items()))), True)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    locales(ctx)
    t = Trio(ctx, rs)
    n = 0
    while ctx.more(n, 120, 10 ** 7):
        if n % 50 == 0 and not os.environ.get("VERIF_DBG"):
            ctx.crumb("sequence %d" % n)
        t.one()
        n += 1
