"""C25: streams inherited by forked processes keep their calls and sections atomic."""
import mmap, multiprocessing, os, pickle, random, select, signal, struct, sys, threading, time
from lib import vf, shim
from lib.linear import linearizable, overlaps, shape, Jitter
from checks.c08 import model, call, Gen

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: offline linearizability checking of histories recorded in several forked processes using one inherited stream, and offline "
             "checks of the records and counters they write, with injected delays and short transfers at system calls and pauses at source lines")
NOTE = "Every recorded history is decided exactly; histories and interleavings are sampled. Reads ahead of buffered readers are private to each process and not judged."
RULE = ("one stream inherited by 1-3 forked processes used by all of them (possibly by two threads of the parent): calls on an unbuffered stream, records written "
        "to append streams of any layer, or read-modify-write sections under the mutex; distinct by (scenario, layer, calls and results, interleaving of the "
        "invocations and responses); non-trivial when calls of different processes overlapped.")
BUDGET = {"quick": 12, "thorough": 240}
TIMEOUT = {"quick": 150, "thorough": 1000}
MIN = {"histories": 150, "overlapping_pairs": 300, "appended_records": 1000, "sections": 500, "children": 500, "child_closes": 50}


def shards(tier, seed):
    return [("p%d" % i, {"i": i}) for i in range(8)]


class Family:
    """Forks children running fn(k, go) and collects what they return; member 0 is the parent itself."""

    def __init__(self, ctx, rng, n):
        self.ctx, self.rng, self.n = ctx, rng, n
        self.board = mmap.mmap(-1, 4096)  # byte k: member k is ready; byte 100: go

    def gather(self, k, fn, seed, jit):
        """Runs fn in a thread of this process, so that pauses can be made at source lines."""
        out = {}
        rnd = random.Random(seed)
        shim.perturb(rnd.getrandbits(40), rnd.choice([0, 100, 300, 600]), rnd.choice([20, 100, 300]))
        sys.setswitchinterval(1e-5)

        def body(j=0):
            b = k if not j else 50
            self.board[b] = 1
            end = time.monotonic() + 20
            while not self.board[100] and time.monotonic() < end:
                pass
            try:
                out[j] = fn(k, j)
            except BaseException as e:
                import traceback
                out[j] = ("failed", traceback.format_exc())
        j = Jitter(seed, ("/rsfile/", "_pyio.py"), rnd.choice([0.02, 0.05, 0.1, 0.2]), rnd.choice([20, 100, 300]))
        ths = [threading.Thread(target=body, args=(x,), daemon=True) for x in range(2 if k == 0 and self.twin else 1)]
        if jit:
            with j:
                [t.start() for t in ths]
                [t.join(30) for t in ths]
        else:
            [t.start() for t in ths]
            [t.join(30) for t in ths]
        shim.perturb(0, 0, 0)
        return None if any(t.is_alive() for t in ths) else out, j.hits

    def run(self, fn, twin=False, prefork=None):
        """Returns the list of (member, thread, result), or None when something never returned."""
        rng = self.rng
        self.twin = twin
        self.board[:] = b"\0" * 4096
        pids, pipes = [], []
        nested = self.n > 2 and rng.random() < 0.3
        for k in range(1, self.n):
            r, w = os.pipe()
            seed, jit = rng.getrandbits(40), rng.random() < 0.6
            pid = os.fork()
            if pid == 0:
                status = 1
                try:
                    signal.alarm(60)
                    if nested and k == 1:  # the work is done by a grandchild
                        g = os.fork()
                        if g:
                            os.waitpid(g, 0)
                            os._exit(0)
                        signal.alarm(60)
                    res = self.gather(k, fn, seed, jit)
                    data = pickle.dumps(res)
                    while data:
                        data = data[os.write(w, data):]
                    status = 0
                finally:
                    os._exit(status)
            os.close(w)
            pids.append(pid)
            pipes.append(r)
            self.ctx.count("children")
        seed, jit = rng.getrandbits(40), rng.random() < 0.6
        t = threading.Thread(target=self.starter, args=(len(pids),), daemon=True)
        t.start()
        mine = self.gather(0, fn, seed, jit)
        results, ok = [(0, mine)], mine[0] is not None
        for k, r in enumerate(pipes):
            data, end = b"", time.monotonic() + 40
            while time.monotonic() < end and select.select([r], [], [], max(0, end - time.monotonic()))[0]:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            os.close(r)
            try:
                res = pickle.loads(data)
            except Exception:
                res = (None, 0)
            results.append((k + 1, res))
            if res[0] is None:
                ok = False
        for p in pids:
            if not ok:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(p, 0)
        t.join()
        sys.setswitchinterval(0.005)
        self.ctx.count("line_pauses", sum(res[1] for (_, res) in results))
        if not ok:
            return None
        return [(k, j, v) for (k, (out, _)) in results for j, v in sorted(out.items())]

    def starter(self, children):
        end = time.monotonic() + 15
        want = list(range(self.n)) + ([50] if self.twin else [])
        while not all(self.board[k] for k in want) and time.monotonic() < end:
            time.sleep(0.0001)
        self.board[100] = 1


def failures(ctx, got, what):
    bad = [v[1] for (_, _, v) in got if isinstance(v, tuple) and v and v[0] == "failed"]
    if bad:
        ctx.violation("failed", "%s: a call fails in one of the processes using the stream" % what, traceback=bad[0][-1500:])
    return bad


def opened(ctx, rs, rng, path, mode, **kw):
    """An inheritable stream with its own mutex, or any stream with a multiprocessing mutex supplied."""
    adv = {"r+b": "RWN", "ab": "A", "a+b": "RA", "rb": "R", "wb": "WN", "a": "A", "r+": "RWN"}[mode] + ("B" if "b" in mode else "")
    k = rng.random()
    if k < 0.55:
        mode = "".join(rng.sample(adv + "I", len(adv) + 1))
    else:
        kw["mutex"] = multiprocessing.RLock()
        if k < 0.8:
            mode = adv
    if rng.random() < 0.15:
        fd = os.open(path, os.O_RDWR | (os.O_APPEND if "a" in mode.lower() else 0))
        return rs.rsopen(None, mode, fileno=fd, locking=False, **kw)
    return rs.rsopen(path, mode, locking=False, **kw)


def histories(ctx, rs, rng, gen):
    path = ctx.fresh("h")
    init = b"".join(b"%dxyz"[:rng.randrange(2, 6)].replace(b"%d", b"%d" % i) + (b"\n" if rng.random() < 0.7 else b"") for i in range(rng.choice([0, 4, 9])))
    with open(path, "wb") as f:
        f.write(init)
    flavour = rng.choice(["raw", "raw", "raw", "rr"])
    st = opened(ctx, rs, rng, path, "r+b" if flavour == "raw" else "rb", buffering=0)
    n = rng.choice([2, 2, 3, 4])
    fam = Family(ctx, rng, n)
    twin = rng.random() < 0.2
    progs = {}
    for k in [(k, 0) for k in range(n)] + ([(0, 1)] if twin else []):
        ops = []
        for _ in range(rng.choice([1, 2, 3]) if n < 4 else rng.choice([1, 2])):
            while True:
                op = gen.op("raw")
                if op[0] in ("lock", "unlock", "close") or flavour == "rr" and op[0] in ("write", "writelines", "truncate"):
                    continue
                break
            ops.append(op)
        progs[k] = ops
    closing = {k: rng.random() < 0.3 for k in range(n)}
    closing[0] = False
    now = time.monotonic_ns

    def work(k, j):
        out = []
        for op in progs[k, j]:
            fn = call(st, op, False)
            inv = now()
            try:
                res = ("ok", fn())
            except Exception as e:
                res = ("exc", type(e).__name__, str(e))
            out.append((op, inv, now(), res))
        if closing[k]:
            st.close()
        return out
    got = fam.run(work, twin)
    if got is None:
        ctx.violation("stuck", "calls on an inherited stream never return", programs=repr(progs))
        raise vf.StopShard()
    if failures(ctx, got, "unbuffered stream"):
        return
    ctx.count("child_closes", sum(closing.values()))
    calls = [((k, j),) + c for (k, j, out) in got for c in out]
    T = now()
    try:
        tell, data = st.tell(), None
        st.seek(0)
        data = st.readall()
        st.close()
    except Exception as e:
        ctx.violation("unusable", "the parent cannot use its stream anymore after its children used it: %r" % e, calls=repr(calls))
        return
    with open(path, "rb") as f:
        final = f.read()
    os.unlink(path)
    calls2 = calls + [(98, ("final",), T, T + 1, ("ok", (tell, data, final)))]
    base = (init, 0, frozenset(), False)
    step = model(False, False, "raw")

    def step2(state, op, res):
        if op == ("final",):
            return [state] if (state[1], state[0], state[0]) == res[1] else []
        return step(state, op, res)
    w = linearizable(calls2, base, step2)
    ctx.count("histories")
    ov = overlaps([((c[0][0],) + c[1:]) for c in calls])
    ctx.count("overlapping_pairs", ov)
    if w is None:
        ctx.violation("not-linearizable", "no sequential order of the calls of the %d processes explains the results (%s)" % (n, st), initial=init,
                      calls=[repr(c) for c in sorted(calls2, key=lambda c: c[2])])
    t0 = sorted([c[2] for c in calls] + [c[3] for c in calls])
    rank = {t: i for i, t in enumerate(t0)}
    norm = [(c[0], c[1], rank[c[2]], rank[c[3]], c[4]) for c in calls]
    ctx.case((flavour, tuple((c[0], c[1], repr(c[4])) for c in norm), shape(norm)), ov > 0,
             sample={"calls": [repr(c)[:150] for c in sorted(norm, key=lambda c: c[2])][:10], "equivalent order": w})


def records(ctx, rs, rng):
    """Records written to an append stream: each one whole, once, in the order of its process."""
    path = ctx.fresh("r")
    open(path, "wb").close()
    text = rng.random() < 0.3
    mode = "a" if text else rng.choice(["ab", "ab", "a+b"])
    buf = rng.choice([-1, 16, 100, 1]) if text else rng.choice([0, 0, 8, 64, 300, -1])
    if not text and buf == 1:
        buf = 8
    kw = dict(encoding="utf-8", newline="\n") if text else {}
    st = opened(ctx, rs, rng, path, mode, buffering=buf, **kw)
    n = rng.choice([2, 3, 4])
    short = rng.random() < 0.4 and buf != 0
    count = rng.choice([3, 6])
    plan = {(k, j): [(rng.choice(["write", "write", "lines", "section"]), [rng.choice([0, 3, 20, 90, 400]) for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.5) for _ in range(count)]
            for k in range(n) for j in (0, 1)}
    if buf == 0:
        for l in plan.values():
            l[:] = [(how if how != "lines" else "section", s, f) for (how, s, f) in l]
    twin = rng.random() < 0.2
    closing = {k: k and rng.random() < 0.5 for k in range(n)}
    if short:
        rules = [shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=10 ** 6, st=os.stat(path))]

    def rec(k, j, i, s):
        b = b"<%d.%d.%d:" % (k, j, i) + b"x" * s + b">\n"
        return b.decode() if text else b

    def put(x):
        if buf == 0:
            r = st.write(x)
            if r != len(x):
                raise AssertionError("short write of a regular file: %r" % r)
        else:
            st.write(x)

    def work(k, j):
        i, sections = 0, []
        for (how, sizes, fl) in plan[k, j]:
            recs = []
            for s in sizes:
                recs.append(rec(k, j, i, s))
                i += 1
            if how == "write":
                for x in recs:
                    put(x)
                if fl:
                    st.flush()
            elif how == "lines":
                st.writelines(recs)
            else:
                with st.mutex:
                    st.flush()
                    for x in recs:
                        put(x)
                    st.flush()
                sections.append(list(range(i - len(recs), i)))
        if closing[k]:
            st.close()
        else:
            st.flush()
        return (i, sections)
    got = Family(ctx, rng, n).run(work, twin)
    if short:
        for r in rules:
            r.clear()
    if got is None:
        ctx.violation("stuck", "calls on an inherited append stream never return", buffering=buf, mode=mode)
        raise vf.StopShard()
    if failures(ctx, got, "append stream (buffering %d)" % buf):
        return
    st.close()
    with open(path, "rb") as f:
        data = f.read()
    os.unlink(path)
    ctx.count("child_closes", sum(map(bool, closing.values())))
    lines = data.split(b"\n")
    bad, order = lines.pop() != b"", {}
    flat = []
    for l in lines:
        try:
            assert l[:1] == b"<" and l[-1:] == b">"
            head, xs = l[1:-1].split(b":")
            k, j, i = map(int, head.split(b"."))
            assert xs == b"x" * len(xs)
            want = [s for (_, sizes, _) in plan[k, j] for s in sizes][i]
            assert len(xs) == want
        except Exception:
            bad = True
            break
        order.setdefault((k, j), []).append(i)
        flat.append((k, j, i))
    if bad:
        ctx.violation("torn", "records written by several processes to one inherited append stream are mixed (buffering %d, %s)" % (buf, mode), content=data[:2000])
        return
    for (k, j, (total, sections)) in got:
        if order.get((k, j), []) != list(range(total)):
            ctx.violation("records", "records of one process lost, duplicated or reordered on an inherited append stream (buffering %d, %s)" % (buf, mode), seen=order.get((k, j)), total=total)
            return
        for s in sections:
            a = flat.index((k, j, s[0]))
            if flat[a:a + len(s)] != [(k, j, i) for i in s]:
                ctx.violation("section", "records of others inside a section under the mutex of an inherited append stream (buffering %d, %s)" % (buf, mode), flat=repr(flat)[:1500], section=s)
                return
    ctx.count("appended_records", len(flat))
    switches = sum(a[0] != b[0] for a, b in zip(flat, flat[1:]))
    ctx.count("alternations", switches)
    ctx.case(("records", mode, buf, short, tuple((k, j, i) for k, j, i in flat)), switches > n - 1)


def sections(ctx, rs, rng):
    """Read-modify-write sections under the mutex of the inherited stream, on any layer."""
    path = ctx.fresh("c")
    with open(path, "wb") as f:
        f.write(b"%08d\n" % 100)
    text = rng.random() < 0.3
    buf = rng.choice([-1, 4, 64]) if text else rng.choice([0, 0, 4, 64, -1])
    st = opened(ctx, rs, rng, path, "r+" if text else "r+b", buffering=buf, **(dict(encoding="ascii") if text else {}))
    n = rng.choice([2, 3, 4])
    rounds = rng.choice([3, 6, 10])
    twin = rng.random() < 0.3
    closing = {k: k and rng.random() < 0.4 for k in range(n)}
    how = rng.choice(["read", "readline", "truncate"])

    def work(k, j):
        for i in range(rounds):
            with st.mutex:
                st.seek(0)
                x = st.readline() if how == "readline" else st.read(9)
                v = int(x) + 1
                st.seek(0)
                if how == "truncate":
                    st.truncate(0)
                w = "%08d\n" % v
                st.write(w if text else w.encode())
                st.flush()
        if closing[k]:
            st.close()
        return rounds
    got = Family(ctx, rng, n).run(work, twin)
    if got is None:
        ctx.violation("stuck", "sections under the mutex of an inherited stream never end", buffering=buf)
        raise vf.StopShard()
    if failures(ctx, got, "sections under the mutex (buffering %d)" % buf):
        return
    total = sum(v for (_, _, v) in got)
    st.close()
    with open(path, "rb") as f:
        data = f.read()
    os.unlink(path)
    if data != b"%08d\n" % (100 + total):
        ctx.violation("lost-update", "%d sections under the mutex of an inherited stream add up to %r (buffering %d)" % (total, data, buf))
    ctx.count("sections", total)
    ctx.count("child_closes", sum(map(bool, closing.values())))
    ctx.case(("sections", text, buf, n, rounds, how, twin, rng.getrandbits(20)), True)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    rng, gen = ctx.rng, Gen(ctx.rng)
    n = 0
    while ctx.more(n, 30, 10 ** 7):
        ctx.crumb("case %d" % n)
        if shim.mark() > 100000:
            shim.reset()
        if n % 4 < 2:
            histories(ctx, rs, rng, gen)
        elif n % 4 == 2:
            records(ctx, rs, rng)
        else:
            sections(ctx, rs, rng)
        n += 1
