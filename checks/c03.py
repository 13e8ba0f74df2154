"""C03: every lock and unlock call does exactly what the per-stream model says, for every form of its arguments."""
import os
from lib import vf, locks, lockwork
from lib.lockwork import Bench, rand_range
from lib.locks import INF, cut, overlap

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference model of lock ownership run in lock-step with random call histories, plus the kernel lock table after each call"
NOTE = "Held on the histories explored; calls are sequential here (concurrent grants are judged by C01, C04, C05)."
RULE = ("random histories (15-60 calls) on up to 8 streams of all layers and wrapping forms over 1-2 files; ranges given through offset, "
        "whence (with unflushed or read-ahead buffers) and length, all shared modes, managers left late or twice, bogus arguments; "
        "result of each call and lock table compared with the model. A call is non-trivial when some lock is held on the file; distinct "
        "by (call form, locks of the stream, locks of the others).")
BUDGET = {"quick": 11, "thorough": 240}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"table_scans": 2000, "calls": 2000, "grants": 500, "refusals": 200, "whence_cur": 100, "whence_end": 100, "bogus_args": 100,
       "manager_exits": 100, "double": 50, "unknown_release": 50}


def shards(tier, seed):
    return [("model%d" % i, {}) for i in range(8)]


class Run(Bench):
    twins = False  # positions matter here

    def start(self):
        self.mgrs = []  # (manager, handle, interval)
        self.bad = 0

    def on_bad(self, what, expect, out, val):
        if "mode" in expect and out.startswith("oserror"):
            return
        self.bad += 1
        self.ctx.violation("result:%s:%s" % (what, "/".join(sorted(expect))), "%s: the model allows %s, got %s (%s)" % (
            what, sorted(expect), out, val), history=self.log[-50:])

    # position model: h.pos is the logical position, or None when it cannot be told
    def begin(self, h):
        h.pos = 0 if not h.append else None
        h.last = None

    def io(self, h):
        rng, st = self.rng, h.stream
        names = self.files[h.file]
        r = rng.random()
        if h.pos is None or r < 0.4:
            k = rng.choice([0, 1, 2, 5, 9, 17, 30, 40, 2**31, 2**32 + 3]) if h.binary else rng.choice([0, 1, 2, 5, 9, 17, 30])
            st.seek(k)
            h.pos = k
            h.last = "seek"
            self.note("h%d.seek(%d)" % (h.id, k))
        elif r < 0.7 and h.readable:
            n = rng.choice([1, 2, 3, 7, 50])
            d = st.read(n)
            h.pos += len(d)
            h.last = "read"
            self.note("h%d.read(%d) -> %d" % (h.id, n, len(d)))
        elif self.can_write(h):
            h.last = "write"
            n = rng.choice([1, 2, 5, 40])
            st.write(b"x" * n if h.binary else "x" * n)
            h.pos = None if h.append else h.pos + n
            self.note("h%d.write(%d)" % (h.id, n))
            self.ctx.count("writes")

    def size_now(self, h):
        return os.stat(self.files[h.file][0]).st_size

    def close(self, h, how=None):
        self.mgrs = [m for m in self.mgrs if m[1] is not h]  # a manager keeps its stream alive
        Bench.close(self, h, how)

    def can_write(self, h):  # a text stream must be repositioned between a read and a write
        return h.writable and h.pos is not None and h.pos < 200 and (h.binary or h.last != "read")

    def do_lock(self, h):
        rng = self.rng
        s, ln = rand_range(rng)
        shared = rng.choice([None, None, True, False, 1, 0])
        if h.locks and rng.random() < 0.25:
            k = rng.choice(h.locks)
            s, ln = k[1], (None if k[2] == INF else k[2] - k[1])
            if rng.random() < 0.5:
                s = max(0, s - 1)
        eff = (not h.writable) if shared is None else bool(shared)
        whence = rng.choice([0, 0, 1, 2])
        if whence == 1 and h.pos is None:
            whence = 0
        base = 0
        if whence == 1:
            base = h.pos
            self.ctx.count("whence_cur")
        elif whence == 2:
            h.stream.flush()  # so that the size is known; half of the time new unflushed data is added again
            base = self.size_now(h)
            if self.can_write(h) and not h.append and rng.random() < 0.6:
                n = rng.choice([1, 3, 9])
                h.stream.write(b"y" * n if h.binary else "y" * n)
                base = max(base, h.pos + n)
                h.pos += n
                self.note("h%d.write(%d) before" % (h.id, n))
            self.ctx.count("whence_end")
        kw = {"timeout": 0}
        off = s - base
        if off < -(2**63) or off + base > 2**63 - 1:
            return
        if off or rng.random() < 0.6:
            kw["offset"] = off
        elif rng.random() < 0.5:
            kw["offset"] = None
        if ln is not None or rng.random() < 0.5:
            kw["length"] = ln
        if whence or rng.random() < 0.3:
            kw["whence"] = whence
        if shared is not None or rng.random() < 0.3:
            kw["shared"] = shared
        iv = cut(s, ln)
        expect = self.verdict(h, h.file, eff, iv, h.readable, h.writable)
        if expect == {"ok"} and rng.random() < 0.3:
            kw["timeout"] = rng.choice([None, 0.5, 3])
            if kw["timeout"] is None and rng.random() < 0.5:
                del kw["timeout"]
        elif expect == {"self"} and rng.random() < 0.3:
            kw["timeout"] = None
        if rng.random() < 0.15 and set(kw) <= {"timeout", "length", "offset", "whence", "shared"}:
            args = [kw.get("timeout"), kw.get("length"), kw.get("offset"), kw.get("whence", 0), kw.get("shared")]
            call = lambda: h.stream.lock_file(*args)
            self.note("h%d.lock_file%s abs=%s" % (h.id, tuple(args), iv))
        else:
            call = lambda: h.stream.lock_file(**kw)
            self.note("h%d.lock_file(%s) abs=%s" % (h.id, kw, iv))
        out, val = self.attempt(call)
        self.note("  ->", out)
        self.ctx.count("calls")
        if expect == {"self"}:
            self.ctx.count("double")
        if out not in expect:
            self.bad_result("lock", expect, out, val)
        if out == "ok":
            h.locks.append((eff,) + iv)
            self.ctx.count("grants")
            if rng.random() < 0.5:
                self.mgrs.append((val, h, iv))
        else:
            self.ctx.count("refusals")
        return kw

    def do_unlock(self, h):
        rng = self.rng
        other = [(g, k) for g in self.handles for k in g.locks if g is not h]
        r = rng.random()
        if h.locks and r < 0.6:
            k = rng.choice(h.locks)
            s, e = k[1:]
        elif other and r < 0.8:
            s, e = rng.choice(other)[1][1:]
        elif h.locks:
            s, e = rng.choice(h.locks)[1:]
            s, e = rng.choice([(s + 1, e), (max(0, s - 1), e), (s, e - 1 if e != INF and e - 1 > s else INF), (s, INF), (s, s + 1), (0, INF)])
            if s >= e:
                return
        else:
            s, ln = rand_range(rng)
            s, e = cut(s, ln)
        if len(h.locks) >= 2 and rng.random() < 0.15:  # two ranges at once
            a, b = rng.sample(h.locks, 2)
            s, e = min(a[1], b[1]), max(a[2], b[2])
        ln = None if e == INF else e - s
        own = [k for k in h.locks if (k[1], k[2]) == (s, e)]
        expect = {"ok"} if own else {"self"}
        whence = rng.choice([0, 0, 1, 2])
        if whence == 1 and (h.pos is None or h.pos > s):
            whence = 0
        base = 0
        if whence == 1:
            base = h.pos
        elif whence == 2:
            h.stream.flush()
            base = self.size_now(h)
            if base > s:
                whence, base = 0, 0
        kw = {}
        if s - base or rng.random() < 0.5:
            kw["offset"] = s - base
        if ln is not None or rng.random() < 0.5:
            kw["length"] = ln if ln is not None else rng.choice([None, 0])
        if whence:
            kw["whence"] = whence
        self.note("h%d.unlock_file(%s) abs=%s" % (h.id, kw, (s, e)))
        if not whence and rng.random() < 0.2:
            call = lambda: h.stream.unlock_file(kw.get("length"), kw.get("offset", 0))
        else:
            call = lambda: h.stream.unlock_file(**kw)
        out, val = self.attempt(call)
        self.note("  ->", out)
        self.ctx.count("calls")
        if not own:
            self.ctx.count("unknown_release")
        if out not in expect:
            self.bad_result("unlock", expect, out, val)
        if out == "ok" and own:
            h.locks.remove(own[0])

    def do_manager(self):
        if not self.mgrs:
            return
        i = self.rng.randrange(len(self.mgrs))
        mgr, h, iv = self.mgrs.pop(i)
        if h.stream is None:
            return
        own = [k for k in h.locks if k[1:] == iv]
        expect = {"ok"} if own else {"self"}
        exc = self.rng.random() < 0.3
        move = self.rng.random() < 0.5

        def go():
            try:
                with mgr:
                    if move and h.pos is not None:
                        self.io(h)
                    if exc:
                        raise self.rng.choice([KeyError, KeyboardInterrupt, SystemExit])("user")
            except (KeyError, KeyboardInterrupt, SystemExit):
                pass
        self.note("with manager of h%d %s%s" % (h.id, iv, " (exception inside)" if exc else ""))
        out, val = self.attempt(go)
        self.note("  ->", out)
        self.ctx.count("manager_exits")
        if out not in expect:
            self.bad_result("manager-exit", expect, out, val)
        if out == "ok" and own:
            h.locks.remove(own[0])

    def do_bogus(self, h):
        rng = self.rng
        what = rng.choice(["timeout", "length", "offset", "whence", "shared", "negative", "overflow", "unlock"])
        kw = {"timeout": 0}
        fn = "lock_file"
        if what == "timeout":
            kw["timeout"] = rng.choice([-1, -0.5, "1", b"", [], 1j])
        elif what == "length":
            kw["length"] = rng.choice([-1, 1.5, "3", -2**40])
        elif what == "offset":
            kw["offset"] = rng.choice([1.5, "0", b"1", [0]])
        elif what == "whence":
            kw["whence"] = rng.choice([3, -1, 7, None, "0", 100])
        elif what == "shared":
            kw["shared"] = rng.choice([2, -1, "yes", [], "None"])
        elif what == "negative":
            kw["offset"], kw["length"] = rng.choice([-1, -7, -2**40, -2**63]), rng.choice([1, 5, None])
        elif what == "overflow":
            kw["offset"], kw["length"] = rng.choice([(2**63, 1), (2**63 - 1, 2**62), (2**64, None), (0, 2**63), (5, 2**64), (2**62, 2**63)])
        else:
            fn = "unlock_file"
            kw = rng.choice([{"length": -1}, {"length": 1.5}, {"offset": 1.5}, {"offset": -1}, {"whence": 5}, {"whence": None}, {"length": "2"}])
        try:
            getattr(h.stream, fn)(**kw)
        except (ValueError, TypeError, OverflowError) as e:
            ok = "value"
        except OSError as e:
            ok = "os"
        except RuntimeError as e:
            ok = "runtime"
        else:
            ok = "accepted"
        self.note("h%d.%s(%s) -> %s" % (h.id, fn, kw, ok))
        self.ctx.count("bogus_args")
        allowed = {"value", "os"} if what in ("negative", "overflow") else {"value"}
        if what in ("negative", "overflow"):
            allowed.add("runtime")  # may be found to overlap one's own range first
        if ok not in allowed:
            self.ctx.violation("bogus:%s:%s" % (what, ok), "%s(%s) must be refused, got %s" % (fn, kw, ok), history=self.log[-20:])

    def do_closed(self, h):
        st = h.stream
        self.close(h, how="close")
        for fn, a in (("lock_file", ()), ("unlock_file", ()), ("lock_file", (0, 3, 1))):
            try:
                getattr(st, fn)(*a)
            except ValueError:
                pass
            except Exception as e:
                self.ctx.violation("closed", "%s on a closed stream raised %r" % (fn, e), history=self.log[-20:])
            else:
                self.ctx.violation("closed", "%s on a closed stream succeeded" % fn, history=self.log[-20:])
        self.ctx.count("closed_calls")

    def others(self, h):
        return tuple(sorted((g.locks and tuple(sorted(g.locks))) or () for g in self.handles if g is not h and g.file == h.file))


def history(ctx, rs, prober, foreign, steps, nfiles):
    b = Run(ctx, rs, prober, foreign, nfiles=nfiles)
    b.start()
    rng = ctx.rng
    maxh = rng.choice([1, 2, 3, 4, 8])
    for step in range(steps):
        ctx.crumb("step %d: %s" % (step, b.log[-1:] or ""))
        hs = b.handles
        r = rng.random()
        if not hs or (r < 0.15 and len(hs) < maxh):
            h = b.open(closefd=rng.random() < 0.85)
            if h:
                b.begin(h)
            form = "open"
        elif r < 0.45:
            h = rng.choice(hs)
            form = b.do_lock(h)
        elif r < 0.62:
            h = rng.choice(hs)
            b.do_unlock(h)
            form = "unlock"
        elif r < 0.70:
            h = None
            b.do_manager()
            form = "manager"
        elif r < 0.84:
            h = rng.choice(hs)
            b.io(h)
            continue
        elif r < 0.90:
            h = rng.choice(hs)
            b.do_bogus(h)
            form = "bogus"
        elif r < 0.93:
            h = None
            b.do_closed(rng.choice(hs))
            form = "closed"
        elif r < 0.96:
            h = None
            b.close(rng.choice(hs))
            form = "close"
        else:
            h = None
            fi = rng.randrange(nfiles)
            form = "foreign"
            if rng.random() < 0.6:
                s, ln = rand_range(rng)
                b.foreign_lock(fi, rng.random() < 0.5, cut(s, ln))
            else:
                b.foreign_unlock(fi)
        if h is not None:
            ctx.case((str(form), h.readable, h.writable, tuple(sorted(h.locks)), b.others(h)), any(g.locks for g in b.handles), sample=b.log[-8:])
        if not b.check_kernel() or b.bad > 2:
            break
    b.done()
    for fd in getattr(b, "keep", ()):
        try:
            os.close(fd)
        except OSError:
            pass


def created(ctx, rs, prober):
    """Opening locks the whole file unless asked otherwise, whether the open creates the file or finds it."""
    rng = ctx.rng
    path = ctx.fresh("new")
    new = rng.random() < 0.8
    mode = rng.choice(["x", "x+", "w", "w+", "a", "a+", "WC", "RWC", "AC", "RAC", "WE", "RW", "A"] if new else ["r", "r+", "w", "a", "R", "RW", "WN", "RAN", "AN"])
    if not new:
        with open(path, "wb") as f:
            f.write(b"1234")
    binary = rng.random() < 0.6
    md = mode + (("b" if mode == mode.lower() else "B") if binary else "")
    kw = dict(mode=md, thread_safe=rng.random() < 0.5)
    if binary:
        kw["buffering"] = rng.choice([-1, 0, 16])
    lk = rng.choice([None, True, True, False, 1, 0])
    if lk is not None:
        kw["locking"] = lk
    if rng.random() < 0.5:
        kw["timeout"] = rng.choice([None, 0, 1])
    shared = mode in ("r", "R")
    st = rs.rsopen(path, **kw)
    key = ("created" if new else "found", mode, lk, kw["thread_safe"])
    held = lk is None or bool(lk)

    def look(what, want, wex):
        a, e, p = prober.scan(path)
        if a != want or e != wex:
            ctx.violation("opening:%s" % what, "%s of a %s file in mode %s (%s): the ranges locked are %s, exclusively %s instead of %s and %s" % (
                what, "new" if new else "present", md, kw, a, e, want, wex), key=key)

    whole = [(0, INF)]
    look("opening", whole if held else [], whole if held and not shared else [])
    for fn, args, good in (("lock_file", (0,), not held), ("unlock_file", (), True), ("unlock_file", (), False)):
        try:
            getattr(st, fn)(*args)
            ok = True
        except RuntimeError:
            ok = False
        if ok != good:
            ctx.violation("opening:%s" % fn, "%s after an open in mode %s (%s) %s" % (fn, md, kw, "succeeds" if ok else "is refused"), key=key)
    look("unlocking", [], [])
    st.close()
    os.unlink(path)
    ctx.count("plain_opens")
    ctx.case(key)


def run(ctx):
    prober, foreign = locks.Helper(), locks.Helper()
    rs = vf.import_rsfile()
    n = 0
    while ctx.more(n, 12, 100000):
        history(ctx, rs, prober, foreign, ctx.rng.choice([15, 30, 60]), ctx.rng.choice([1, 1, 2]))
        for _ in range(3):
            created(ctx, rs, prober)
        n += 1
    ctx.count("histories", n)
    prober.stop()
    foreign.stop()
