"""C18: whole-file helpers are atomic with respect to each other."""
import io, itertools, os, pickle, random, threading, time, traceback
from lib import vf, shim, linear
from lib.locks import Helper, INF

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: histories of concurrent whole-file helper calls by threads and processes, with delayed and shortened system calls, are decided offline by a complete "
             "linearizability search against one content value; sequential round trips are compared with the standard library for all options, and an independent process observes the locks left behind")
NOTE = "Each recorded history is decided exactly; histories, schedules and options are sampled. Files are local; only the helpers (and locked streams) access the raced files."
RULE = ("one race of 2-6 callers making 1-5 helper calls each on one file; distinct by (calls, results, order of invocations and responses); non-trivial when calls of different callers "
        "overlapped and at least one changed the file. Sequential: one helper call; distinct by (helper, options, kind of data, content, faults).")
BUDGET = {"quick": 12, "thorough": 200}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"races": 150, "calls": 2500, "overlapping_pairs": 2000, "reads": 500, "process_races": 60, "roundtrips": 800, "refused": 100, "creations": 30, "faulty": 100}


def shards(tier, seed):
    return [("h%d" % i, {"i": i}) for i in range(8)]


# ------------------------------------------------------------------------------------------------
# races

def call(rs, path, op):
    """op: (kind, tag data, options)"""
    kind, data, kw = op
    if kind == "read":
        r = rs.read_from_file(path, **kw)
        return r if isinstance(r, bytes) else r.encode()
    (rs.write_to_file if kind == "write" else rs.append_to_file)(path, data, **kw)
    return None


def caller(rs, path, ops, pause, rng):
    out = []
    for op in ops:
        if pause:
            time.sleep(rng.random() * pause)
        t0 = time.monotonic_ns()
        try:
            r = ("ok", call(rs, path, op))
        except Exception as e:
            known = isinstance(e, (rs.LockingException, FileExistsError, FileNotFoundError))
            r = ("exc", "LockingException" if isinstance(e, rs.LockingException) else type(e).__name__, "" if known else traceback.format_exc())
            e.__traceback__ = None
        out.append((t0, time.monotonic_ns(), r))
    return out


def payload(rng, tag, big):
    """A content nobody else writes, recognizable at both ends."""
    n = rng.choice([0, 1, 3, 40] if not big else [0, 10, 3000, 20000, 150000])
    head = "<%s" % tag
    return head + "%c" % rng.choice("abcxyz\n") * n + "%s>" % tag


def plan(rng):
    nproc = rng.choice([0, 0, 1, 1, 2])
    callers = []
    tag = itertools.count()
    big = rng.random() < 0.4
    exotic = rng.random() < 0.35  # creations, refused calls
    creators = exotic and rng.random() < 0.5
    prefs = ("write", "write", "read", "append") if creators else rng.choice([("read", "write"), ("write", "append", "read"), ("append", "append", "read"), ("write", "append", "read", "read"), ("write", "write", "append")])
    for p in range(nproc + 1):
        for _ in range(rng.choice([1, 2, 2, 3]) if nproc < 2 else rng.choice([1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5]) if not creators else 2):
                kind = rng.choice(prefs)
                kw = {}
                if rng.random() < 0.15 and exotic:
                    kw["timeout"] = rng.choice([0, 0.02])
                if rng.random() < 0.3:
                    kw["timeout"] = 60
                if kind == "read":
                    kw["binary"] = rng.random() < 0.6
                    text = not kw["binary"]
                    data = None
                else:
                    text = rng.random() < 0.4
                    data = payload(rng, next(tag), big)
                    if not text:
                        data = data.encode()
                        if rng.random() < 0.1:
                            data = memoryview(data)
                    if exotic and rng.random() < 0.3:
                        kw["must_not_create"] = True
                    elif exotic and kind == "write" and rng.random() < (0.6 if creators else 0.2):
                        kw["must_create"] = True
                    if rng.random() < 0.05:
                        kw["sync"] = True
                if rng.random() < 0.5:
                    kw["buffering"] = rng.choice([16, 64, 1000, 8192] + ([] if text else [0]))
                if text:
                    kw["newline"] = "\n"
                ops.append((kind, data, kw))
            callers.append((p, ops))
    return nproc, callers, exotic, creators


def token(data):
    return bytes(data) if not isinstance(data, str) else data.encode()


def history(callers, results):
    """Calls for the search: (who, op, inv, ret, result); calls which may create the file are split in two steps."""
    calls = []
    for k, (p, ops) in enumerate(callers):
        for op, (t0, t1, r) in zip(ops, results[k]):
            kind, data, kw = op
            calls.append((k, op, t0, t1, r))
            if kind != "read" and not kw.get("must_not_create"):
                calls.append((k, ("create", None, kw), t0, t1, r))
    return calls


def step(state, op, res):
    """state: None (no file) or a tuple of contents in order."""
    kind, data, kw = op
    fail = res[1] if res[0] == "exc" else None
    if fail is not None and fail not in ("LockingException", "FileExistsError", "FileNotFoundError"):
        return []
    if kind == "create":
        if kw.get("must_create"):
            if fail == "FileExistsError":
                return [state] if state is not None else []
            return [()] if state is None else []
        if fail == "FileExistsError":
            return []
        return [() if state is None else state]
    if fail == "LockingException":
        return [state] if "timeout" in kw and (state is not None or kind != "read") else []
    if fail == "FileNotFoundError":
        return [state] if state is None and (kind == "read" or kw.get("must_not_create")) else []
    if fail == "FileExistsError":
        return [state] if kw.get("must_create") else []
    if state is None:
        return []
    if kind == "read":
        return [state] if res[1] == b"".join(state) else []
    d = token(data)
    if kind == "write":
        return [(d,) if d else ()]
    return [state + (d,) if d else state]


DEAD = "unobserved"


def stepper(hist):
    """`step` with all contents which no remaining read can report (prefixes of none of the results) merged in one state."""
    seen = {r[1] for (_, op, _, _, r) in hist if op[0] == "read" and r[0] == "ok"}
    memo = {}

    def live(state):
        if state not in memo:
            b = b"".join(state)
            memo[state] = any(x.startswith(b) for x in seen)
        return memo[state]

    def go(state, op, res):
        if state == DEAD:
            if op[0] == "read" and res[0] == "ok":
                return []
            out = [DEAD if op[0] == "append" or n in (("dead",), None) else n for n in step(("dead",), op, res)]
        else:
            out = step(state, op, res)
        return [n if n is None or n == DEAD or live(n) else DEAD for n in out]
    return go


def race(ctx, rs, prober):
    rng = ctx.rng
    path = ctx.fresh("w")
    nproc, callers, exotic, creators = plan(rng)
    ncalls = sum(len(o) for _, o in callers)
    init = None
    if not exotic or rng.random() < (0 if creators else 0.6):
        init = ("<old%s>" % ("o" * rng.choice([0, 10, 5000]))).encode()
        with open(path, "wb") as f:
            f.write(init)
        st = os.stat(path)
    else:
        st = None
        ctx.count("creations")
    short = rng.random() < 0.4
    what = "%d callers, %d calls, %d processes, %s%s" % (len(callers), ncalls, nproc + 1, "short transfers, " if short else "", "file there" if init else "no file")
    ctx.crumb(what)
    if short:
        shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=-1, st=st)
        shim.Rule(shim.READ, shim.SHORT_RANDOM, count=-1, st=st)
    shim.perturb(rng.getrandbits(40), rng.choice([0, 200, 600]), rng.choice([50, 300, 1000]))
    pause = rng.choice([0, 0, 0.002])
    seeds = [rng.random() for _ in callers]

    def work(ks, res):
        start = threading.Barrier(len(ks))

        def body(k):
            start.wait()
            res[k] = caller(rs, path, callers[k][1], pause, random.Random(seeds[k]))
        ths = [threading.Thread(target=body, args=(k,)) for k in ks]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    r0, w0 = os.pipe()
    kids = []
    for g in range(1, nproc + 1):
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(w0)
                os.read(r0, 1)
                res = {}
                work([k for k in range(len(callers)) if callers[k][0] == g], res)
                with os.fdopen(pw, "wb") as f:
                    pickle.dump(res, f)
                code = 0
            finally:
                os._exit(code)
        os.close(pw)
        kids.append((pid, pr))
    os.close(w0)
    os.close(r0)
    results = {}
    jit = linear.Jitter(rng.getrandbits(30), ("rsfile_utilities", "rsfileio_abstract", "rsfile_registries"), rng.choice([0.01, 0.05]), 300) if rng.random() < 0.4 else None
    if jit:
        with jit:
            work([k for k in range(len(callers)) if callers[k][0] == 0], results)
    else:
        work([k for k in range(len(callers)) if callers[k][0] == 0], results)
    for pid, pr in kids:
        with os.fdopen(pr, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if raw:
            results.update(pickle.loads(raw))
    shim.perturb(1, 0, 0)
    shim.clear_rules()
    if len(results) < len(callers):
        raise vf.Inconclusive("a child of the harness died")
    ctx.count("races")
    ctx.count("process_races", nproc > 0)
    ctx.count("calls", ncalls)
    flat = [(k, op, t0, t1, r) for k, (p, ops) in enumerate(callers) for op, (t0, t1, r) in zip(ops, results[k])]
    for (k, op, t0, t1, r) in flat:
        ctx.count("reads", op[0] == "read")
        ctx.count("refused", r[0] == "exc" and not r[2])
        if r[0] == "exc" and r[2]:
            ctx.violation("error:%s" % r[1], "%s_file helper fails with %s during a race [%s]" % (op[0], r[1], what), trace=r[2])
            return
    final = None
    if os.path.exists(path):
        with open(path, "rb") as f:
            final = f.read()
    end = max(t1 for (_, _, _, t1, _) in flat) + 1
    hist = history(callers, results)
    hist.append((-1, ("read", None, {}), end, end + 1, ("ok", final) if final is not None else ("exc", "FileNotFoundError", "")))
    over = linear.overlaps(flat)
    ctx.count("overlapping_pairs", over)
    desc = [("c%d" % k, op[0], short_repr(op[1]), {a: b for a, b in op[2].items() if a != "newline"}, t0 - flat[0][2], t1 - flat[0][2], r[1] if r[0] == "exc" else short_repr(r[1])) for (k, op, t0, t1, r) in flat]
    if linear.linearizable(hist, None if init is None else (init,), stepper(hist)) is None:
        for (k, op, t0, t1, r) in flat:
            if op[0] == "read" and r[0] == "ok":
                bad = mixture(r[1], init, callers)
                if bad:
                    ctx.violation("mixture", "a whole-file read returns %s [%s]" % (bad, what), history=desc, final=short_repr(final))
                    break
        else:
            ctx.violation("not-atomic", "no one-at-a-time order of the helper calls explains their results and the final content [%s]" % what, history=desc, final=short_repr(final))
    ctx.case((tuple((d[0], d[1], d[6]) for d in desc), linear.shape(flat)), over > 0 and any(op[0] != "read" for (_, op, _, _, _) in flat),
             sample="%s: %s..." % (what, [d[:3] + d[6:] for d in desc[:4]]))
    anyl, excl, pids = prober.scan(path) if os.path.exists(path) else ([], [], [])
    if anyl:
        ctx.violation("left-lock", "a lock remains on the file after all helpers have returned: %s [%s]" % (anyl, what))
    if os.path.exists(path):
        os.unlink(path)


def short_repr(d):
    if d is None:
        return None
    d = token(d)
    return repr(d) if len(d) < 60 else "%r...%r (%d)" % (d[:20], d[-20:], len(d))


def mixture(got, init, callers):
    """None when `got` is a sequence of whole contents."""
    pieces = [token(op[1]) for _, ops in callers for op in ops if op[0] != "read"] + ([init] if init else [])
    pos = 0
    while pos < len(got):
        for p in pieces:
            if p and got.startswith(p, pos):
                pos += len(p)
                break
        else:
            return "a mixture: nobody wrote %s at offset %d of %d" % (short_repr(got[pos:]), pos, len(got))
    return None


# ------------------------------------------------------------------------------------------------
# sequential round trips

CHARS = "aé\n\r€ \0漢\U0001f600\x85 z"


def some_text(rng):
    n = rng.choice([0, 1, 5, 50, 3000, 20000])
    return "".join(rng.choice(CHARS if rng.random() < 0.8 else "abc\n") for _ in range(min(n, 200))) * (max(1, n // 200))


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        r = ("exc", "UnsupportedOperation" if isinstance(e, io.UnsupportedOperation) else next(
            c.__name__ for c in type(e).__mro__ if c.__module__ == "builtins"))
        e.__traceback__ = None
        return r


def roundtrip(ctx, rs, prober):
    rng = ctx.rng
    p1, p2 = ctx.fresh("s"), ctx.fresh("t")
    rules = []
    log = []
    for stepno in range(rng.choice([3, 6, 10])):
        text = rng.random() < 0.6
        opts = {}
        if text:
            enc = rng.choice([None, "utf-8", "latin-1", "utf-16", "utf-8-sig", "ascii", "utf-16-le", "cp1252", "shift_jis", "utf-7"])
            opts = dict(encoding=enc, errors=rng.choice([None, None, "strict", "replace", "ignore", "backslashreplace", "surrogateescape"]), newline=rng.choice([None, None, "", "\n", "\r", "\r\n"]))
        buffering = rng.choice([None, None, 1, 2, 17, 4096, 100000] if text else [None, None, 0, 2, 17, 4096])
        kind = rng.choice(["write", "append", "read", "read"])
        fault = rng.choice(["", "", "", "short", "short"])
        exist = rng.choice([{}, {}, {}, {"must_not_create": True}, {"must_create": True}] if kind == "write" else [{}, {}, {"must_not_create": True}]) if kind != "read" else {}
        locking = rng.random() < 0.8
        extra = {} if rng.random() < 0.6 else {"timeout": rng.choice([0, 0.01, 5])}
        if rng.random() < 0.2:
            for p in (p1, p2):
                if os.path.exists(p):
                    os.unlink(p)
        # somebody else's lock
        foreign = None
        if rng.random() < 0.15 and os.path.exists(p1):
            foreign = rng.choice(["shared", "exclusive"])
            extra = {"timeout": 0.01}
        sync = rng.random() < 0.2 and kind != "read"
        data = None
        if kind != "read":
            data = some_text(rng)
            if not text:
                data = data.encode()
                if rng.random() < 0.3:
                    data = rng.choice([bytearray, memoryview])(data)
            elif rng.random() < 0.1:
                data += "\udcff"
        what = "%s_file %s opts=%s buffering=%s %s %s locking=%s foreign=%s sync=%s %s" % (kind, short_repr(data.encode("utf-8", "surrogatepass") if isinstance(data, str) else data), opts, buffering, exist, fault, locking, foreign, sync, extra)
        log.append(what)
        ctx.crumb(what)
        before = content(p1)
        if fault:
            rules = [shim.Rule(c, shim.SHORT_RANDOM, count=-1, st=os.stat(p1) if os.path.exists(p1) else None) for c in (shim.WRITE, shim.READ)]
            ctx.count("faulty")
        fd = None
        if foreign:
            fd = prober.call("open", p1)
            prober.setlk(fd, 0 if foreign == "shared" else 1, 0, INF)
        kw = dict(opts, buffering=buffering, locking=locking, **extra)
        shim.reset()
        shim.lib().vs_log(1)
        if kind == "read":
            got = outcome(lambda: rs.read_from_file(p1, binary=not text, **kw))
        else:
            got = outcome(lambda: (rs.write_to_file if kind == "write" else rs.append_to_file)(p1, data, sync=sync, **exist, **kw))
        shim.lib().vs_log(0)
        recs = shim.records() if sync else []
        if fd is not None:
            prober.call("close", fd)
        shim.clear_rules()
        after = content(p1)
        ctx.count("roundtrips")
        blocked = foreign == "exclusive" or foreign == "shared" and kind != "read"
        ctx.case((kind, text, tuple(sorted(opts.items(), key=str)), buffering, tuple(exist), fault, foreign, None if data is None else len(data), type(data).__name__, got[0], before is None),
                 True, sample=what)
        if foreign and locking and blocked:
            ctx.count("refused")
            wrong_exist = exist.get("must_create")
            if got[0] != "exc":
                ctx.violation("lock-ignored", "the helper succeeds although another process holds a conflicting lock [%s]" % what, history=log)
            elif not wrong_exist and after != before:
                ctx.violation("refused-write", "a helper refused for a lock changed the file: %s -> %s [%s]" % (short_repr(before), short_repr(after), what), history=log)
        else:
            # reference
            o = dict(opts)
            if kind == "read":
                ref = outcome(lambda: reading(p2, text, o))
            else:
                m = {"write": "w", "append": "a"}[kind]
                if exist.get("must_create"):
                    m = "x"
                if exist.get("must_not_create") and not os.path.exists(p2):
                    ref = ("exc", "FileNotFoundError")
                else:
                    ref = outcome(lambda: writing(p2, m, text, data, o))
            if got[0] != ref[0] or got[0] == "exc" and got[1] != ref[1]:
                ctx.violation("outcome", "the helper gives %.80r where the standard library gives %.80r [%s]" % (got, ref, what), history=log)
            elif kind == "read" and got != ref:
                ctx.violation("read", "the helper reads %s where the standard library reads %s [%s]" % (short_repr(enc_(got[1])), short_repr(enc_(ref[1])), what), history=log)
            elif after != content(p2):
                ctx.violation("content", "the helper leaves %s where the standard library leaves %s [%s]" % (short_repr(after), short_repr(content(p2)), what), history=log)
            elif sync and got[0] == "ok" and after:
                w = [r.seq for r in recs if r.call == shim.WRITE and r.ret > 0]
                s = [r.seq for r in recs if r.call in (shim.FSYNC, shim.FDSYNC) and r.ret == 0]
                if w and (not s or max(s) < max(w)):
                    ctx.violation("sync", "the helper was asked to sync but no fsync follows its last write [%s]" % what, history=log)
        if os.path.exists(p1):
            left = prober.scan(p1)[0]
            if left:
                ctx.violation("left-lock", "a lock remains after the helper has returned: %s [%s]" % (left, what), history=log)
        if ctx.violations:
            break
    for p in (p1, p2):
        if os.path.exists(p):
            os.unlink(p)


def enc_(x):
    return x.encode("utf-8", "surrogatepass") if isinstance(x, str) else x


def content(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def reading(p, text, o):
    with io.open(p, "r" if text else "rb", **(o if text else {})) as f:
        return f.read()


def writing(p, m, text, data, o):
    with io.open(p, m if text else m + "b", **(o if text else {})) as f:
        f.write(data)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    prober = Helper()
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    n = 0
    while ctx.more(n, 30, 10 ** 6):
        if n % 5 < 3:
            race(ctx, rs, prober)
        else:
            for _ in range(3):
                roundtrip(ctx, rs, prober)
        n += 1
    prober.stop()
