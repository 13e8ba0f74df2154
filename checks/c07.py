"""C07: file locks are not shared with forked children."""
import contextlib, fcntl, gc, multiprocessing, os, pickle, random, select, signal, socket, struct, sys, threading, time, traceback
from lib import vf, shim, linear, locks
from lib.locks import INF, cut, overlap, merge
from lib.lockwork import rand_range

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: histories over trees of forked processes, every result judged by a per-process ownership model and the kernel lock "
             "table read by a non-participating process")
NOTE = "Sampled histories of up to four processes; forks under concurrent locking use injected delays to widen the windows."
RULE = ("a history interleaving forks (also of children, also while other threads lock, unlock and close), lock/unlock/close/collect/with-exit through "
        "inherited and new streams in every process, and exits (return, sys.exit, _exit, kill); distinct by the sequence of (process, operation, "
        "result); non-trivial when some process held locks at a fork.")
BUDGET = {"quick": 11, "thorough": 200}
TIMEOUT = {"quick": 150, "thorough": 900}
MIN = {"forks": 200, "forks_with_locks": 100, "child_refused": 100, "child_granted": 100, "child_ops": 1000, "table_scans": 1000, "storms": 20, "exits": 100,
       "not_owner": 20}


def shards(tier, seed):
    return [("f%d" % i, {"i": i}) for i in range(8)]


# ---- what runs inside each participating process -------------------------------------------
class Agent:
    def __init__(self, rs, path, sockets):
        self.rs, self.path, self.sockets = rs, path, sockets
        self.streams, self.mgrs = {}, {}

    def attempt(self, fn):
        try:
            fn()
            return ("ok", "")
        except self.rs.LockingException as e:
            return ("busy", repr(e))
        except RuntimeError as e:
            return ("self", repr(e))
        except Exception as e:
            return ("exc", traceback.format_exc())

    def do(self, op, *a):
        rs = self.rs
        if op == "open":
            sid, mode, kw = a

            def f():
                self.streams[sid] = rs.rsopen(self.path + kw.pop("alias", ""), mode, **kw)
            return self.attempt(f)
        if op == "lock":
            sid, s, ln, shared, keep = a

            def f():
                m = self.streams[sid].lock_file(timeout=0, offset=s, length=ln, shared=shared)
                if keep:
                    self.mgrs[(sid, s, ln)] = m
            return self.attempt(f)
        if op == "unlock":
            sid, s, ln, how = a
            if how == "with":
                m = self.mgrs.pop((sid, s, ln), None)
                if m is None:
                    return self.attempt(lambda: self.streams[sid].unlock_file(offset=s, length=ln))

                def f():
                    with m:
                        pass
                return self.attempt(f)
            return self.attempt(lambda: self.streams[sid].unlock_file(offset=s, length=ln))
        if op == "close":
            return self.attempt(lambda: self.streams.pop(a[0]).close())
        if op == "gc":
            for k in [k for k in self.mgrs if k[0] == a[0]]:
                del self.mgrs[k]
            self.streams.pop(a[0])
            gc.collect()
            return ("ok", "")
        if op == "closeall":
            for sid in list(self.streams):
                self.streams.pop(sid).close()
            self.mgrs.clear()
            return ("ok", "")
        if op == "fork":
            return self.fork(*a)
        if op == "pid":
            return ("ok", os.getpid())
        raise ValueError(op)

    def fork(self, n, how):
        if how == "mp":
            p = multiprocessing.get_context("fork").Process(target=self.child, args=(n,))
            p.daemon = True
            p.start()
            self.procs = getattr(self, "procs", []) + [p]
            return ("ok", p.pid)
        pid = os.fork()
        if pid == 0:
            try:
                self.child(n)
            except SystemExit:
                # leave through the interpreter's finalization of our own objects only
                self.streams.clear()
                gc.collect()
            finally:
                os._exit(0)
        return ("ok", pid)

    def child(self, n):
        s = self.sockets[n][1]
        for k, (x, y) in enumerate(self.sockets):
            x.close() if hasattr(x, "close") else None
        while True:
            head = s.recv(4, socket.MSG_WAITALL)
            if len(head) < 4:
                os._exit(0)
            cmd = pickle.loads(s.recv(struct.unpack("<I", head)[0], socket.MSG_WAITALL))
            if cmd[0] == "exit":
                if cmd[1] == "_exit":
                    os._exit(3)
                if cmd[1] == "closeall":
                    self.do("closeall")
                    os._exit(0)
                sys.exit(0)
            try:
                res = self.do(*cmd)
            except BaseException:
                res = ("exc", traceback.format_exc())
            data = pickle.dumps(res)
            s.sendall(struct.pack("<I", len(data)) + data)


class Dead(Exception):
    pass


class Tree:
    NMAX = 4

    def __init__(self, ctx, rs, prober):
        self.ctx, self.rs, self.prober, self.rng = ctx, rs, prober, ctx.rng
        self.path = ctx.fresh("k")
        with open(self.path, "wb") as f:
            f.write(b"0123456789" * 4)
        os.link(self.path, self.path + ".l")
        self.sockets = [socket.socketpair() for _ in range(self.NMAX)]
        self.agent = Agent(rs, self.path, self.sockets)
        self.pids = {0: os.getpid()}
        self.parent = {0: None}
        self.model = {0: {}}  # proc -> sid -> dict(readable, writable, locks)
        self.live = [0]
        self.next = 1
        self.sid = 0
        self.log = []
        self.inode = os.stat(self.path).st_ino

    def call(self, p, *cmd):
        if p == 0:
            return self.agent.do(*cmd)
        s = self.sockets[p][0]
        data = pickle.dumps(cmd)
        try:
            s.sendall(struct.pack("<I", len(data)) + data)
            s.settimeout(25)
            n = struct.unpack("<I", s.recv(4, socket.MSG_WAITALL))[0]
            return pickle.loads(s.recv(n, socket.MSG_WAITALL))
        except (OSError, struct.error) as e:
            self.ctx.violation("child-stuck", "a forked process did not answer to %r: %r" % (cmd, e), history=self.log[-60:])
            raise Dead()

    def note(self, *w):
        self.log.append(" ".join(str(x) for x in w))

    def verdict(self, p, sid, shared, iv):
        h = self.model[p][sid]
        if (shared and not h["r"]) or (not shared and not h["w"]):
            return {"exc"}
        own = any(overlap((s, e), iv) for (sh, s, e) in h["locks"])
        other = any(overlap((s, e), iv) and not (sh and shared) for q in self.live for k, g in self.model[q].items() if (q, k) != (p, sid)
                    for (sh, s, e) in g["locks"])
        return {"self", "busy"} if own and other else {"self"} if own else {"busy"} if other else {"ok"}

    def judge(self, p, what, expect, out):
        self.note("  ->", out[0])
        if out[0] not in expect:
            self.ctx.violation("result:" + what, "%s in process %d (%s): expected %s, got %s (%s)" % (
                what, p, "root" if p == 0 else "child of %s" % self.parent[p], sorted(expect), out[0], out[1]), history=self.log[-60:])
        if p:
            self.ctx.count("child_ops")
            if out[0] == "busy":
                self.ctx.count("child_refused")
            if out[0] == "ok" and what == "lock":
                self.ctx.count("child_granted")
            if out[0] == "self":
                self.ctx.count("not_owner")

    def step(self):
        rng = self.rng
        p = rng.choice(self.live)
        m = self.model[p]
        r = rng.random()
        if r < 0.16 or not m:
            self.sid += 1
            sid = self.sid
            mode = rng.choice(["r+b", "r+b", "r+", "rb", "r", "ab", "RWB", "RAB", "w+b", "RWIB"])
            kw = dict(locking=rng.random() < 0.25, timeout=0, thread_safe=rng.random() < 0.4, alias=rng.choice(["", "", ".l"]))
            if rng.random() < 0.4 and "b" in mode.lower():
                kw["buffering"] = 0
            readable = mode not in ("ab",)
            writable = mode not in ("rb", "r")
            m[sid] = dict(r=readable, w=writable, locks=[])
            expect = self.verdict(p, sid, not writable, (0, INF)) if kw["locking"] else {"ok"}
            self.note("P%d s%d=open %s %s" % (p, sid, mode, kw))
            out = self.call(p, "open", sid, mode, dict(kw))
            self.judge(p, "open", expect, out)
            if out[0] != "ok":
                del m[sid]
            elif kw["locking"]:
                m[sid]["locks"].append((not writable, 0, INF))
        elif r < 0.55:
            sid = rng.choice(list(m))
            s, ln = rand_range(rng)
            shared = rng.random() < 0.4
            iv = cut(s, ln)
            expect = self.verdict(p, sid, shared, iv)
            self.note("P%d s%d.lock(%d,%s,shared=%s)" % (p, sid, s, ln, shared))
            out = self.call(p, "lock", sid, s, ln, shared, rng.random() < 0.5)
            self.judge(p, "lock", expect, out)
            if out[0] == "ok":
                m[sid]["locks"].append((shared,) + iv)
        elif r < 0.72:
            sid = rng.choice(list(m))
            # also ranges locked by the parent's copy of the stream
            cand = list(m[sid]["locks"])
            par = self.parent[p]
            if par in self.live and sid in self.model.get(par, {}):
                cand += self.model[par][sid]["locks"]
            if not cand:
                return
            (sh, s, e) = rng.choice(cand)
            ln = None if e == INF else e - s
            mine = (s, e) in [(a, b) for (_, a, b) in m[sid]["locks"]]
            self.note("P%d s%d.unlock(%d,%s) owner=%s" % (p, sid, s, ln, mine))
            out = self.call(p, "unlock", sid, s, ln, rng.choice(["call", "with"]))
            self.judge(p, "unlock", {"ok"} if mine else {"self"}, out)
            if mine and out[0] == "ok":
                m[sid]["locks"].remove([k for k in m[sid]["locks"] if k[1:] == (s, e)][0])
        elif r < 0.86:
            sid = rng.choice(list(m))
            how = rng.choice(["close", "close", "gc"])
            self.note("P%d %s s%d" % (p, how, sid))
            out = self.call(p, how, sid)
            self.judge(p, how, {"ok"}, out)
            del m[sid]
        elif r < 0.94:
            if self.next >= self.NMAX:
                return
            n = self.next
            self.next += 1
            how = rng.choice(["fork", "fork", "mp"]) if p == 0 else "fork"
            self.note("P%d forks P%d (%s)" % (p, n, how))
            out = self.call(p, "fork", n, how)
            if out[0] != "ok":
                self.ctx.violation("fork", "fork failed: %s" % out[1], history=self.log[-60:])
                raise Dead()
            self.pids[n] = out[1]
            self.parent[n] = p
            self.live.append(n)
            self.model[n] = {k: dict(r=v["r"], w=v["w"], locks=[]) for k, v in m.items()}
            self.ctx.count("forks")
            if any(v["locks"] for q in self.live for v in self.model[q].values()):
                self.ctx.count("forks_with_locks")
                self.nontrivial = True
        else:
            kids = [q for q in self.live if q]
            if not kids:
                return
            self.end(rng.choice(kids))
        self.check()

    def end(self, q):
        how = self.rng.choice(["_exit", "sys", "kill", "closeall"])
        self.note("P%d ends (%s)" % (q, how))
        if how == "kill":
            os.kill(self.pids[q], signal.SIGKILL)
        else:
            data = pickle.dumps(("exit", how))
            try:
                self.sockets[q][0].sendall(struct.pack("<I", len(data)) + data)
            except OSError:
                pass
        self.gone(q)
        self.live.remove(q)
        del self.model[q]
        self.ctx.count("exits")

    def gone(self, q, limit=20):
        """Waits until the process has ended (reaping it if it is ours)."""
        end = time.monotonic() + limit
        pid = self.pids[q]
        while time.monotonic() < end:
            try:
                if self.parent[q] == 0:
                    if os.waitpid(pid, os.WNOHANG)[0]:
                        return
                else:
                    with open("/proc/%d/stat" % pid) as f:
                        if f.read().rsplit(")", 1)[1].split()[0] in "ZX":
                            return
            except (ChildProcessError, FileNotFoundError, ProcessLookupError):
                return
            time.sleep(0.0005)
        self.ctx.violation("child-stuck", "a forked process does not end", history=self.log[-60:])
        os.kill(pid, signal.SIGKILL)

    def check(self):
        """The kernel table is exactly the union of what each process owns."""
        any_ = merge([(s, e) for q in self.live for h in self.model[q].values() for (sh, s, e) in h["locks"]])
        ex = merge([(s, e) for q in self.live for h in self.model[q].values() for (sh, s, e) in h["locks"] if not sh])
        got_any, got_ex, pids = self.prober.scan(self.path)
        self.ctx.count("table_scans")
        if (got_any, got_ex) != (any_, ex):
            lost = locks.subtract(any_, got_any) or locks.subtract(ex, got_ex)
            self.ctx.violation("kernel:lost" if lost else "kernel:leftover",
                               "lock table differs from what the processes own: %s" % (lost or "unowned " + str(locks.subtract(got_any, any_))),
                               history=self.log[-60:], kernel=(got_any, got_ex), model=(any_, ex))
            raise Dead()
        if self.byproc:
            mine = {}
            want = {}
            for l in open("/proc/locks"):
                w = l.split()
                if w[1] == "POSIX" and int(w[5].split(":")[2]) == self.inode and "->" not in l:
                    mine.setdefault(int(w[4]), []).append((int(w[6]), INF if w[7] == "EOF" else int(w[7]) + 1))
            for q in self.live:
                r = merge([(s, e) for h in self.model[q].values() for (sh, s, e) in h["locks"]])
                if r:
                    want[self.pids[q]] = r
            mine = {p: merge(v) for p, v in mine.items()}
            self.ctx.count("owner_tables")
            if mine != want:
                # a lock may be listed while its owner is still disappearing: look again
                self.ctx.violation("kernel:owner", "locks per process are %s instead of %s" % (mine, want), history=self.log[-60:])
                raise Dead()

    byproc = False

    def finish(self):
        for q in [q for q in self.live if q]:
            try:
                os.kill(self.pids[q], signal.SIGKILL)
            except OSError:
                pass
            self.gone(q)
        for p in getattr(self.agent, "procs", []):
            p.join(1)
        self.agent.do("closeall")
        for a, b in self.sockets:
            a.close()
            b.close()
        os.unlink(self.path)
        os.unlink(self.path + ".l")


def locks_visible(path):
    """Whether /proc/locks can be used to tell the owners of locks."""
    pid = os.fork()
    if pid == 0:
        fd = os.open(path, os.O_RDWR | os.O_CREAT)
        fcntl.lockf(fd, fcntl.LOCK_EX, 7, 3)
        ok = False
        try:
            for l in open("/proc/locks"):
                w = l.split()
                ok = ok or (w[1] == "POSIX" and int(w[4]) == os.getpid() and int(w[6]) == 3 and int(w[7]) == 9 and int(w[5].split(":")[2]) == os.fstat(fd).st_ino)
        except Exception:
            ok = False
        os._exit(0 if ok else 1)
    return os.waitpid(pid, 0)[1] == 0


# ---- forks while other threads are busy in the registry -------------------------------------
def storm(ctx, rs, prober):
    rng = ctx.rng
    a, b, stable = ctx.fresh("a"), ctx.fresh("b"), ctx.fresh("s")
    for p in (a, b, stable):
        with open(p, "wb") as f:
            f.write(b"x" * 50)
    keep = rs.rsopen(stable, "r+b", locking=False, thread_safe=False)
    keep.lock_file(offset=0, length=10)
    inherited = rs.rsopen(stable, "r+b", locking=False, thread_safe=False)
    stop = []
    errors = []

    def hammer(k):
        r = random.Random(k)
        try:
            while not stop:
                st = rs.rsopen(a, r.choice(["r+b", "rb"]), locking=False, buffering=r.choice([0, -1]), thread_safe=False)
                try:
                    st.lock_file(timeout=0, offset=r.randrange(5), length=3, shared=None)
                except rs.LockingException:
                    pass
                st.close()
        except Exception:
            errors.append(traceback.format_exc())
    ths = [threading.Thread(target=hammer, args=(rng.random(),)) for _ in range(rng.choice([1, 2, 3]))]
    rules = [shim.Rule(shim.CLOSE, shim.DELAY_BEFORE, 300, count=-1, st=os.stat(a)), shim.Rule(shim.FCNTL, shim.DELAY_AFTER, 200, count=-1, st=os.stat(a))]
    bad = None
    jit = contextlib.ExitStack()
    jit.enter_context(linear.jitter(ctx, rng, 0.5))
    for t in ths:
        t.start()
    try:
        for _ in range(rng.choice([3, 6])):
            time.sleep(rng.random() * 0.003)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                msg = b"?"
                try:
                    signal.alarm(20)
                    msg = b"parent's range granted"
                    try:
                        inherited.lock_file(timeout=0, offset=5, length=10)
                    except rs.LockingException:
                        st = rs.rsopen(stable, "r+b", locking=False, thread_safe=False)
                        msg = b"free range refused"
                        st.lock_file(timeout=0, offset=20, length=5)
                        inherited.lock_file(timeout=0, offset=30, length=5)
                        msg = b"unlocked what it does not own"
                        try:
                            keep.unlock_file(offset=0, length=10)
                        except RuntimeError:
                            msg = b"close failed"
                            inherited.close()
                            keep.close()
                            n = rs.rsopen(b, "wb", timeout=0, thread_safe=False)
                            n.close()
                            msg = b"fine"
                except BaseException:
                    msg += b": " + traceback.format_exc().encode()
                os.write(w, msg[-3000:])
                os._exit(0)
            os.close(w)
            got = b""
            while True:
                x = os.read(r, 4096)
                if not x:
                    break
                got += x
            os.close(r)
            st_ = os.waitpid(pid, 0)[1]
            ctx.count("forks")
            ctx.count("forks_with_locks")
            if got != b"fine":
                what = got.decode() or "the child got stuck (status %s)" % st_
                bad = ("storm:" + ("stuck" if not got else "child"), "fork while other threads lock and close: %s" % what)
                break
            got_any = prober.scan(stable)[0]
            if got_any != [(0, 10)]:
                bad = ("storm:lost", "after a child ended the parent's locks are %s instead of [(0, 10)]" % got_any)
                break
    finally:
        stop.append(1)
        for t in ths:
            t.join()
        jit.close()
        for r_ in rules:
            r_.clear()
    keep.close()
    inherited.close()
    if errors:
        ctx.violation("storm:parent", "locking in the parent failed while it was forking", traceback=errors[0])
    if bad:
        ctx.violation(*bad)
    left = prober.scan(a)[0]
    if left and not bad:
        ctx.violation("storm:leftover", "locks %s remain in the parent although all streams are closed" % left)
    ctx.count("storms")
    for p in (a, b, stable):
        os.unlink(p)


def run(ctx, i=0):
    prober = locks.Helper()
    Tree.byproc = locks_visible(ctx.fresh("v"))
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    n = 0
    while ctx.more(n, 30, 10**6):
        ctx.crumb("case %d" % n)
        shim.reset()
        if n % 4 == 3:
            storm(ctx, rs, prober)
            n += 1
            continue
        t = Tree(ctx, rs, prober)
        t.nontrivial = False
        try:
            for _ in range(40):
                t.step()
        except Dead:
            pass
        ctx.case(tuple(x for x in t.log), t.nontrivial, sample={"history": t.log[:25]})
        t.finish()
        n += 1
    prober.stop()
