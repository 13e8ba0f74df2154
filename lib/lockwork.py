"""Random single-process lock/open/close histories on a few files, with an explicit ownership model.

Oracles: results of every call (C03), kernel lock table seen from another process (C02), descriptor table (C14)."""
import errno, fcntl, gc, io, os, pathlib
from . import vf, locks
from .locks import INF, overlap, merge, subtract, cut

EDGES = [0, 1, 2, 3, 5, 8, 10, 16, 100, 4095, 4096, 8191, 8192, 8193, 65536, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1,
         2**32 - 1, 2**32, 2**32 + 1, 2**40, 2**62, 2**63 - 2]


class H:
    """Model of one open stream."""
    __slots__ = "id stream readable writable locks file how path alias fd closefd userfd binary buffered append pos last ts".split()


def rand_range(rng, small=True):
    """(offset, length) inside [0, 2^63)."""
    r = rng.random()
    if r < (0.75 if small else 0.4):
        s = rng.randrange(0, 24)
        ln = rng.choice([None, 0, 1, 1, 2, 3, 4, 6, 10, 20])
    elif r < 0.85:
        s = rng.choice([0, 0, rng.randrange(0, 40)])
        ln = None
    else:
        s = rng.choice(EDGES)
        ln = rng.choice([None, 1, 2, 10, 4096, 2**31, 2**32, 2**32 + 5])
        if ln and s + ln > 2**63 - 1:
            ln = 1 if s + 1 <= 2**63 - 1 else None
    return s, ln


class Bench:
    twins = True  # some streams may share their position

    def __init__(self, ctx, rsfile, prober, foreign, nfiles=1, with_text=True, size=30):
        self.ctx, self.rs, self.prober, self.foreign = ctx, rsfile, prober, foreign
        self.rng = ctx.rng
        self.files, self.handles, self.log = [], [], []
        self.fl = {}  # foreign locks: file index -> list of (shared, s, e)
        self.ffd = {}
        self.with_text = with_text
        self.hid = 0
        for i in range(nfiles):
            p = ctx.fresh("lk")
            with open(p, "wb") as f:
                f.write(bytes(range(65, 65 + 26)) * (size // 26 + 1))
                f.truncate(size)
            os.link(p, p + ".hard")
            os.symlink(p, p + ".sym")
            self.files.append([p, p + ".hard", p + ".sym"])
            self.fl[i] = []
            self.ffd[i] = foreign.call("open", p) if foreign else None

    def done(self):
        for h in list(self.handles):
            self.close(h, how="close")
        if self.foreign:
            for fd in self.ffd.values():
                self.foreign.call("close", fd)
        for names in self.files:
            for n in names:
                try:
                    os.unlink(n)
                except OSError:
                    pass

    # ---- model
    def owned(self, fi, exclusive_only=False):
        return merge([(s, e) for h in self.handles if h.file == fi for (sh, s, e) in h.locks if not (exclusive_only and sh)])

    def verdict(self, h, fi, shared, iv, readable, writable):
        """Set of acceptable outcomes for an attempt."""
        if (shared and not readable) or (not shared and not writable):
            return {"mode"}
        own = h is not None and any(overlap((s, e), iv) for (sh, s, e) in h.locks)
        other = any(overlap((s, e), iv) and not (sh and shared) for g in self.handles if g is not h and g.file == fi
                    for (sh, s, e) in g.locks)
        other = other or any(overlap((s, e), iv) and not (sh and shared) for (sh, s, e) in self.fl[fi])
        if own and other:
            return {"self", "busy"}
        if own:
            return {"self"}
        if other:
            return {"busy"}
        return {"ok"}

    # ---- actions
    def note(self, *what):
        self.log.append(" ".join(str(w) for w in what))

    def attempt(self, fn):
        L = self.rs.LockingException
        try:
            return ("ok", fn())
        except L as e:
            return ("busy", repr(e))
        except RuntimeError as e:
            return ("self", repr(e))
        except OSError as e:
            return ("mode" if e.errno is None else "oserror:%s" % e.errno, repr(e))

    def open(self, fi=None, locking=None, kind=None, mode=None, closefd=True, binary=None):
        rng, rs = self.rng, self.rs
        fi = rng.randrange(len(self.files)) if fi is None else fi
        names = self.files[fi]
        path = rng.choice(names)
        acc = mode or rng.choice(["r", "r+", "r+", "a", "a+", "w+", "w", "r", "R", "RW", "W", "A", "RA", "RWN", "WE", "RN", "RWE"])
        std = acc == acc.lower()
        readable = ("r" in acc or "+" in acc) if std else ("R" in acc)
        writable = (acc != "r") if std else ("W" in acc or "A" in acc)
        binary = (rng.random() < (0.7 if self.with_text else 1.0)) if binary is None else binary
        md = acc + (("b" if std else "B") if binary else "")
        buffering = rng.choice([None, -1, 0, 1, 2, 16, 4096]) if binary else rng.choice([None, -1, 1, 16])
        if binary and buffering == 1:
            buffering = 2
        ts = rng.random() < 0.5
        locking = (rng.random() < 0.35) if locking is None else locking
        kind = kind or rng.choice(["str", "str", "str", "bytes", "pathlib", "rel", "fileno", "name-fd", "handle", "opener", "dup"])
        if not std and kind == "name-fd":
            kind = "fileno"
        kw = dict(mode=md, buffering=buffering, thread_safe=ts, locking=locking, timeout=0)
        flags = {(True, True): os.O_RDWR, (False, True): os.O_WRONLY, (True, False): os.O_RDONLY}[(readable, writable)]
        if writable and ("a" in acc or "A" in acc):
            flags |= os.O_APPEND
        userfd = None
        if kind == "str":
            kw["name"] = path
        elif kind == "bytes":
            kw["name"] = os.fsencode(path)
        elif kind == "pathlib":
            kw["name"] = pathlib.Path(path)
        elif kind == "rel":
            kw["name"] = os.path.relpath(path)
        elif kind in ("fileno", "name-fd", "handle", "dup"):
            twins = [x for x in self.handles if x.file == fi and not x.stream.closed and (x.readable, x.writable) == (readable, writable)] if kind == "dup" and self.twins and rng.random() < 0.6 else []
            if twins:
                # a duplicate of the descriptor of another stream, which may have locks
                userfd = fcntl.fcntl(rng.choice(twins).stream.fileno(), fcntl.F_DUPFD, rng.choice([3, 20, 300]))
                self.ctx.count("twin_streams")
            else:
                userfd = os.open(path, flags)
            if kind == "dup" and not twins:
                fd2 = fcntl.fcntl(userfd, fcntl.F_DUPFD, rng.choice([3, 20, 300]))
                # (closing userfd here would drop the process' locks on that file: keep both until the end)
                self.keep.append(userfd) if hasattr(self, "keep") else setattr(self, "keep", [userfd])
                userfd = fd2
            kw["name" if kind == "name-fd" else "handle" if kind == "handle" else "fileno"] = userfd
            kw["closefd"] = closefd
        elif kind == "opener":
            kw["name"] = path
            kw["opener"] = lambda p, m, f=flags: os.open(p, f)
        shared = not writable
        expect = self.verdict(None, fi, shared, (0, INF), readable, writable) if locking else {"ok"}
        self.hid += 1
        self.note("h%d=rsopen(%s,%r,buffering=%s,ts=%s,locking=%s,%s)" % (self.hid, os.path.basename(path), md, buffering, ts, locking, kind))
        out, val = self.attempt(lambda: rs.rsopen(**kw))
        self.note("  ->", out)
        if out not in expect:
            self.bad_result("open", expect, out, val)
        if out != "ok":
            if userfd is not None and not closefd:
                self.keep.append(userfd) if hasattr(self, "keep") else setattr(self, "keep", [userfd])
            self.ctx.count("refused_opens")
            self.refused_owned = userfd is None or closefd
            return None
        h = H()
        h.id, h.stream, h.readable, h.writable, h.file, h.how = self.hid, val, readable, writable, fi, kind
        h.locks = [(shared, 0, INF)] if locking else []
        h.userfd, h.closefd, h.binary, h.buffered, h.ts = userfd, closefd, binary, not (binary and buffering == 0), ts
        h.append = "a" in acc or "A" in acc
        self.handles.append(h)
        self.ctx.count("opens")
        return h

    def bad_result(self, what, expect, out, val):
        self.last_bad = (what, sorted(expect), out, val)
        self.on_bad(what, expect, out, val)

    def on_bad(self, what, expect, out, val):
        self.ctx.violation("result:%s" % what, "%s: expected %s, got %s (%s)" % (what, sorted(expect), out, val), history=self.log[-60:])

    def lock(self, h, s=None, ln=None, shared="rand", timeout=0, whence=None, ctxmgr=None):
        rng = self.rng
        if s is None:
            s, ln = rand_range(rng)
        if shared == "rand":
            shared = rng.choice([None, None, True, False])
        eff = (not h.writable) if shared is None else shared
        kw = {}
        if timeout is not None or rng.random() < 0.5:
            kw["timeout"] = timeout
        if ln is not None or rng.random() < 0.5:
            kw["length"] = ln
        if shared is not None:
            kw["shared"] = shared
        off = s
        if whence is not None:
            kw["whence"] = whence
            base = h.stream.tell() if whence == 1 else h.stream.size() if whence == 2 else 0
            if whence == 1 and not h.binary:
                base = h.stream.buffer.tell() if False else base
            off = s - base
        if off != 0 or rng.random() < 0.7:
            kw["offset"] = off
        iv = cut(s, ln)
        expect = self.verdict(h, h.file, eff, iv, h.readable, h.writable)
        if timeout is None and expect != {"ok"} and "busy" in expect:
            kw["timeout"] = 0
        self.note("h%d.lock_file(%s) abs=%s" % (h.id, kw, iv))
        out, val = self.attempt(lambda: h.stream.lock_file(**kw))
        self.note("  ->", out)
        if out not in expect:
            self.bad_result("lock", expect, out, val)
        if out == "ok":
            h.locks.append((eff,) + iv)
            self.ctx.count("grants")
            return val
        self.ctx.count("refusals")
        return None

    def unlock(self, h, s, ln, how="call", mgr=None):
        rng = self.rng
        iv = cut(s, ln)
        own = [k for k in h.locks if (k[1], k[2]) == iv]
        expect = {"ok"} if own else {"self"}
        self.note("h%d.unlock(%s,%s) %s" % (h.id, s, ln, how))
        if mgr is not None:
            def go():
                try:
                    with mgr:
                        if how == "with-exc":
                            raise rng.choice([KeyError, KeyboardInterrupt, GeneratorExit])("user error inside with")
                except (KeyError, KeyboardInterrupt, GeneratorExit):
                    pass
            out, val = self.attempt(go)
        else:
            kw = {}
            if ln is not None or self.rng.random() < 0.5:
                kw["length"] = ln
            if s or self.rng.random() < 0.5:
                kw["offset"] = s
            out, val = self.attempt(lambda: h.stream.unlock_file(**kw))
        self.note("  ->", out)
        if out not in expect:
            self.bad_result("unlock", expect, out, val)
        if out == "ok" and own:
            h.locks.remove(own[0])
            self.ctx.count("releases")

    def close(self, h, how=None):
        rng = self.rng
        how = how or rng.choice(["close", "close", "with", "gc", "del-exc", "twice", "buffer"])
        self.note("close h%d (%s)" % (h.id, how))
        self.handles.remove(h)
        st = h.stream
        h.stream = None
        if how == "with":
            with st:
                pass
        elif how == "gc":
            del st
            gc.collect()
        elif how == "del-exc":
            def boom(x):
                y = x  # noqa: keeps the stream in the frame of the exception
                raise KeyError(1)
            try:
                boom(st)
            except KeyError as e:
                del st
                e = None
            gc.collect()
        elif how == "twice":
            st.close()
            st.close()
        elif how == "buffer" and not isinstance(getattr(st, "raw", None), type(None)):
            st.raw.close() if h.buffered and h.binary else st.close()
            try:
                st.close()
            except ValueError:
                pass
        else:
            st.close()
        self.ctx.count("closes")
        if h.userfd is not None and not h.closefd:
            self.keep.append(h.userfd) if hasattr(self, "keep") else setattr(self, "keep", [h.userfd])

    # ---- foreign process
    def foreign_lock(self, fi, shared, iv):
        conflict = any(overlap((s, e), iv) and not (sh and shared) for h in self.handles if h.file == fi for (sh, s, e) in h.locks)
        mine = any(overlap((s, e), iv) for (sh, s, e) in self.fl[fi])
        if mine:
            return
        ok = self.foreign.setlk(self.ffd[fi], fcntl.F_RDLCK if shared else fcntl.F_WRLCK, *iv)
        self.note("foreign lock file%d %s %s -> %s (conflict expected: %s)" % (fi, "sh" if shared else "ex", iv, ok, conflict))
        if ok:
            self.fl[fi].append((shared,) + iv)
            self.ctx.count("foreign_locks")
        if ok == conflict:
            kind = "foreign process got a lock on bytes locked here" if ok else "bytes nobody locks are refused to a foreign process"
            self.ctx.violation("kernel:foreign", kind, history=self.log[-60:], range=iv)

    def foreign_unlock(self, fi):
        if self.fl[fi]:
            k = self.rng.choice(self.fl[fi])
            self.foreign.setlk(self.ffd[fi], fcntl.F_UNLCK, k[1], k[2])
            self.fl[fi].remove(k)
            self.note("foreign unlock", k)

    # ---- oracle: kernel table
    def check_kernel(self, what="table"):
        ok = True
        for fi, names in enumerate(self.files):
            anyl, exl, pids = self.prober.scan(names[0])
            want_any = merge(self.owned(fi) + [(s, e) for (_, s, e) in self.fl[fi]])
            want_ex = merge(self.owned(fi, True) + [(s, e) for (sh, s, e) in self.fl[fi] if not sh])
            self.ctx.count("table_scans")
            if anyl:
                self.ctx.count("nonempty_scans")
            if anyl != want_any or exl != want_ex:
                missing = subtract(want_any, anyl) or subtract(want_ex, exl)
                extra = subtract(anyl, want_any) or subtract(exl, want_ex)
                mech = "kernel:lost" if missing else "kernel:leftover"
                msg = "bytes held by a stream are free for other processes" if missing else \
                    "bytes no stream holds (or only share-holds) are refused to other processes"
                ok = False
                self.ctx.violation(mech, "%s: %s" % (msg, missing or extra), history=self.log[-80:], file=fi,
                                   kernel_any=anyl, model_any=want_any, kernel_ex=exl, model_ex=want_ex)
        return ok

    def unlink(self, fi):
        """Deletes all the links of the file, which stays reachable through /proc only."""
        fd = os.open(self.files[fi][0], os.O_RDWR)
        self.keep.append(fd) if hasattr(self, "keep") else setattr(self, "keep", [fd])
        for n in set(self.files[fi]):
            os.unlink(n)
        self.files[fi] = ["/proc/%d/fd/%d" % (os.getpid(), fd)] * 3
        self.note("unlink file%d" % fi)
        self.ctx.count("unlinked")

    def state_key(self):
        return tuple(sorted((h.file, h.readable, h.writable, tuple(sorted(h.locks))) for h in self.handles))
