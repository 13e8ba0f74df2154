"""C01: conflicting locks never coexist, whatever mix of processes and threads takes them."""
import gc, os, random, signal, sys, threading, time, traceback, weakref
from lib import vf, shim, linear, locks, swarm
from lib.locks import INF, cut
from lib.swarm import Log, GRANT, RELEASE, DONE, now

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline checker over recorded hold intervals of stress runs with injected system-call delays"
NOTE = "Sound on what was recorded (definite hold intervals on one monotonic clock); schedules are sampled by stress and delay injection."
RULE = ("3 processes x 3 threads (and a process killed at random) lock random ranges of 1-2 files through streams opened in every way; "
        "a case is one grant; it is non-trivial when it overlapped in time with a hold or attempt of another stream; distinct by "
        "(range, mode, form, kind of neighbour holds).")
BUDGET = {"quick": 8, "thorough": 200}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"grants": 3000, "pairs": 2000, "refused": 300, "cross_process_pairs": 500, "same_process_pairs": 300}
ASSUMPTIONS = ["CLOCK_MONOTONIC is common to all processes", "local POSIX file system"]


def shards(tier, seed):
    return [("swarm%d" % i, {"delay": i % 4, "nfiles": 1 + (i % 3 == 2)}) for i in range(8)]


def rrange(rng, hot):
    r = rng.random()
    if r < 0.7:
        return rng.randrange(0, hot), rng.choice([1, 2, 3, 5, None, 0])
    if r < 0.85:
        return rng.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**62]), rng.choice([1, 2, 2**31, 2**32, None])
    return rng.choice([0, 0, 3]), rng.choice([2**31 + 5, 2**32, 2**32 + 7, 2**33, None])


class Worker:
    def __init__(self, rs, rng, files, log, stop, stats, hot):
        self.rs, self.rng, self.files, self.log, self.stop, self.stats, self.hot = rs, rng, files, log, stop, stats, hot
        self.next = rng.randrange(1 << 30)
        self.anchors = {}

    def hid(self):
        self.next += 1
        return self.next & 0xFFFFFFFF

    def opened(self, fi, locking, timeout):
        rng, rs = self.rng, self.rs
        path = rng.choice(self.files[fi])
        mode = rng.choice(["r+b", "rb", "a+b", "RWB", "RB", "ab", "r", "r+", "WB"])
        kw = dict(mode=mode, locking=locking, timeout=timeout, thread_safe=rng.random() < 0.5)
        if "b" in mode.lower():
            kw["buffering"] = rng.choice([0, -1, 16])
        form = rng.choice(["path", "path", "bytes", "fileno", "handle", "opener", "twin"])
        writable = not (mode in ("rb", "RB", "r"))
        readable = "r" in mode.lower() or "+" in mode
        flags = os.O_RDWR if (readable and writable) else os.O_WRONLY if writable else os.O_RDONLY
        if form == "path":
            kw["name"] = path
        elif form == "bytes":
            kw["name"] = os.fsencode(path)
        elif form == "opener":
            kw["name"] = path
            kw["opener"] = lambda p, f: os.open(p, flags)
        elif form == "twin":
            # a duplicate of the descriptor of a stream of this process, sharing its position
            if fi not in self.anchors:
                self.anchors[fi] = rs.rsopen(self.files[fi][0], "r+b", buffering=0, locking=False)
            kw["fileno"] = os.dup(self.anchors[fi].fileno())
        else:
            kw[form] = os.open(path, flags)
        return rs.rsopen(**kw), readable, writable, form

    def run(self):
        try:
            while not self.stop.is_set():
                self.episode()
        except BaseException:
            self.stats["errors"].append(traceback.format_exc())

    def episode(self):
        rng, rs, log = self.rng, self.rs, self.log
        fi = rng.randrange(len(self.files))
        locking = rng.random() < 0.25
        held = []  # (hold id, shared, interval)
        mgr = None
        to = rng.choice([0, 0.02, 0.1, None])
        try:
            st, readable, writable, form = self.opened(fi, locking, to)
        except rs.LockingException:
            self.stats["refused"] += 1
            return
        t = now()
        if locking:
            h = self.hid()
            held.append((h, not writable, (0, INF)))
            log.put(GRANT, not writable, fi, h, t, (0, INF))
            self.stats["grants"] += 1
        for _ in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < 0.6:
                s, ln = rrange(rng, self.hot)
                shared = rng.choice([True, False])
                if (shared and not readable) or (not shared and not writable):
                    shared = not shared
                iv = cut(s, ln)
                if any(locks.overlap(iv, x[2]) for x in held):
                    continue
                # never block without bound while holding something: that would be a deadlock of ours
                to = rng.choice([0, 0.005, 0.05]) if held else rng.choice([0, 0.005, 0.1, None])
                if to is None and rng.random() < 0.5:
                    ln = None if rng.random() < 0.3 else ln
                    iv = cut(s, ln)
                try:
                    mgr = st.lock_file(timeout=to, offset=s, length=ln, shared=shared)
                except rs.LockingException:
                    self.stats["refused"] += 1
                    continue
                t = now()
                h = self.hid()
                log.put(GRANT, shared, fi, h, t, iv)
                self.stats["grants"] += 1
                self.pause()
                if rng.random() < 0.4:
                    t = now()
                    log.put(RELEASE, shared, fi, h, t, iv)
                    try:
                        with mgr:
                            if rng.random() < 0.3:
                                raise rng.choice([KeyError, KeyboardInterrupt])
                    except (KeyError, KeyboardInterrupt):
                        pass
                else:
                    held.append((h, shared, iv, s, ln))
            elif r < 0.8 and held:
                x = held.pop(rng.randrange(len(held)))
                log.put(RELEASE, x[1], fi, x[0], now(), x[2])
                if len(x) == 3:
                    st.unlock_file()
                else:
                    st.unlock_file(offset=x[3], length=x[4])
            elif r < 0.9:
                self.pause()
            else:  # an unrelated stream on the same file comes and goes
                try:
                    o = self.opened(fi, False, 0)[0]
                    o.close()
                except rs.LockingException:
                    pass
        rng.shuffle(held)
        while held and rng.random() < 0.5:
            x = held.pop()
            log.put(RELEASE, x[1], fi, x[0], now(), x[2])
            st.unlock_file(*(() if len(x) == 3 else (x[4], x[3])))
        t = now()
        for x in held:
            log.put(RELEASE, x[1], fi, x[0], t, x[2])
        if rng.random() < 0.2:
            ref = weakref.ref(st)
            st = mgr = None
            while ref() is not None:  # gc.collect() does nothing while another thread collects
                gc.collect()
                time.sleep(0.0005)
        else:
            st.close()

    def pause(self):
        r = self.rng.random()
        if r < 0.5:
            time.sleep(self.rng.random() * 0.002)
        elif r < 0.55:
            time.sleep(0.02)


def process(ctx, rs, files, path, seed, dur, nthreads, delay, hot):
    """Body of one worker process."""
    log = Log(path)
    stop = threading.Event()
    stats = {"grants": 0, "refused": 0, "errors": []}
    rs.set_rsfile_options(default_spinlock_delay=0.002)
    sys.setswitchinterval(1e-4)
    if delay:
        shim.perturb(seed, [0, 30, 150, 400][delay], [0, 300, 1000, 300][delay])
    ts = [threading.Thread(target=Worker(rs, random.Random("%s-%d" % (seed, i)), files, log, stop, stats, hot).run, daemon=True)
          for i in range(nthreads)]
    if random.Random(seed).random() < 0.4:  # pauses between the lines of the package, whatever they are
        threading.settrace(linear.Jitter(seed, (os.path.join(vf.SRC, "rsfile"),), random.Random(seed).choice([0.01, 0.03, 0.1]), 200).trace)
        stats["jitter"] = 1
    for t in ts:
        t.start()
    time.sleep(dur)
    stop.set()
    for t in ts:
        t.join(5)
    alive = sum(t.is_alive() for t in ts)
    log.put(DONE, 0, 0, 0, now(), (0, 0))
    import json
    with open(path + ".stats", "w") as f:
        json.dump(dict(stats, alive=alive), f)


def round_(ctx, rs, n, delay, nfiles):
    import json
    rng = ctx.rng
    files = []
    for i in range(nfiles):
        p = ctx.fresh("sw")
        with open(p, "wb") as f:
            f.write(b"0123456789" * 3)
        os.link(p, p + ".l")
        os.symlink(p, p + ".s")
        files.append([p, p + ".l", p + ".s"])
    logs, pids = [], []
    dur = 0.8 if ctx.tier == "quick" else 2.0
    hot = rng.choice([3, 6, 12])
    nthreads = rng.choice([2, 3, 4])
    for k in range(3):
        path = ctx.fresh("log")
        sd = rng.randrange(1 << 40)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                process(ctx, rs, files, path, sd, dur, nthreads, delay, hot)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        logs.append(path)
        pids.append(pid)
    killed = {}
    if rng.random() < 0.5:
        time.sleep(dur * rng.random())
        killed[0] = now()
        os.kill(pids[0], signal.SIGKILL)
    deadline = time.monotonic() + dur + 15
    for k, pid in enumerate(pids):
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.monotonic() > deadline:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                ctx.count("stuck_processes")  # progress is the business of C04
                killed.setdefault(k, 0)
                break
            time.sleep(0.005)
    holds = []
    end = now()
    for k, path in enumerate(logs):
        evs = swarm.read_log(path)
        openh = {}
        last = evs[-1][4] if evs else 0
        for (kind, shared, fi, hold, t, s, e) in evs:
            if kind == GRANT:
                openh[hold] = (t, shared, fi, s, e)
            elif kind == RELEASE and hold in openh:
                t0, sh, f, s0, e0 = openh.pop(hold)
                holds.append((t0, t, f, sh, s0, e0, k))
        for hold, (t0, sh, f, s0, e0) in openh.items():  # still held when the process was killed
            stop = killed.get(k) or last
            if stop > t0:
                holds.append((t0, stop, f, sh, s0, e0, k))
        if os.path.exists(path + ".stats"):
            st = json.load(open(path + ".stats"))
            ctx.count("refused", st["refused"])
            ctx.count("jittery_processes", st.get("jitter", 0))
            for err in st["errors"][:1]:
                if "/src/rsfile/" in err:
                    ctx.violation("worker-exception", "unexpected exception in a locking workload", traceback=err)
                else:
                    raise vf.Inconclusive(err)
            ctx.count("stuck_threads", st["alive"])
    bad, pairs = swarm.conflicts(holds)
    ctx.count("grants", len(holds))
    ctx.count("pairs", pairs)
    # what overlapped with what: the diversity actually observed
    byf = {}
    for h in holds:
        byf.setdefault(h[2], []).append(h)
    for hs in byf.values():
        hs.sort()
        act = []
        for h in hs:
            act = [a for a in act if a[1] > h[0]]
            for a in act:
                ctx.count("cross_process_pairs" if a[6] != h[6] else "same_process_pairs")
            key = (h[3], h[4], h[5], tuple(sorted((a[3], a[4], a[5], a[6] == h[6]) for a in act))[:4])
            ctx.case(key, bool(act), sample={"grant": [bool(h[3]), h[4], h[5]], "concurrent holds [shared,start,end,same process]":
                                             [[bool(a[3]), a[4], a[5], a[6] == h[6]] for a in act][:4]})
            act.append(h)
    for a, b in bad[:3]:
        ctx.violation("coexist:%s" % ("cross-process" if a[6] != b[6] else "same-process"),
                      "conflicting locks held at the same time: %s and %s" % (
                          ("shared" if a[3] else "exclusive", a[4], a[5]), ("shared" if b[3] else "exclusive", b[4], b[5])),
                      first=a, second=b, overlap_ns=min(a[1], b[1]) - b[0])
    for names in files:
        for n_ in names:
            os.unlink(n_)
    for path in logs:
        for q in (path, path + ".stats"):
            if os.path.exists(q):
                os.unlink(q)


def run(ctx, delay, nfiles):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    n = 0
    while ctx.more(n, 3, 10000) and ctx.counters.get("stuck_processes", 0) + ctx.counters.get("stuck_threads", 0) < 2:
        ctx.crumb("round %d" % n)
        round_(ctx, rs, n, delay, nfiles)
        n += 1
    ctx.count("rounds", n)
