"""C17: appending never overwrites."""
import os, random, re, threading, time, traceback
from lib import vf, shim, linear

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: concurrent appenders (threads and processes, delayed and shortened system calls) write bytes of alphabets of their own, and an offline checker splits the "
             "final file by writer and by record; an online checker compares the file before and after each step of sequential histories with outside changes")
NOTE = "Sampled schedules; delays between the system calls are injected at random. Files are local; O_APPEND of the kernel is trusted."
RULE = ("one race of 2-5 appenders; distinct by (kinds of the appenders, locking, faults, order of the writers' runs on file); non-trivial when the bytes of at least two writers alternate on file. "
        "Sequential: one step with outside changes; distinct by (stream, operation, outside change, pending bytes).")
BUDGET = {"quick": 11, "thorough": 180}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"races": 120, "alternations": 2000, "records": 5000, "steps": 3000, "locked_records": 1500}


def shards(tier, seed):
    return [("a%d" % i, {"i": i}) for i in range(8)]


ALPHA = [b"abcdefghij", b"klmnopqrst", b"ABCDEFGHIJ", b"KLMNOPQRST", b"0123456789", b"uvwxyzUVWX"]


class Odd(Exception):
    pass


def record(rng, k, big):
    n = rng.choice([1, 3, 10, 40] + ([300, 9000] if big else []))
    a = ALPHA[k]
    return bytes([a[rng.randrange(9)] for _ in range(n)]) + a[9:]


def appender(rs, path, k, spec, rng, data):
    """Appends its records; `data` collects them in order."""
    kind, mode, lock, thr = spec["kind"], spec["mode"], spec["lock"], spec["ts"]
    if kind == "helper":
        for _ in range(spec["n"]):
            d = record(rng, k, spec["big"])
            rs.append_to_file(path, d, buffering=rng.choice([None, 0, 16]), locking=True)
            data.append(d)
        return
    kw = dict(buffering=spec["buffering"], thread_safe=thr, locking=False)
    if spec["opener"]:
        kw["opener"] = lambda n, fl: os.open(n, fl, 0o644)
    text = kind == "text"
    s = None
    for j in range(spec["n"]):
        if s is None:
            s = rs.rsopen(path, mode, **kw)
        d = record(rng, k, spec["big"])
        if spec["move"] and rng.random() < 0.5:
            s.seek(rng.choice([0, 0, 3]))
            if spec["read"] and rng.random() < 0.5:
                s.read(rng.choice([1, 10, 100]))
                if text:
                    s.seek(0)

        def put():
            if kind == "raw":
                left = d
                while left:
                    left = left[s.write(left):]
            else:
                s.write(d.decode() if text else d)
                if lock or rng.random() < 0.5:
                    if rng.random() < 0.7:
                        s.flush()
        if lock == "with":
            with s.lock_file(offset=0, length=None):
                put()
        elif lock == "explicit":
            s.lock_file()
            put()
            s.unlock_file()
        else:
            put()
        data.append(d)
        if rng.random() < spec["reopen"]:
            s.close()
            s = None
    if s is not None:
        s.close()


def race(ctx, rs):
    rng = ctx.rng
    path = ctx.fresh("r")
    old = b"<" + b"#" * rng.choice([0, 5, 100]) + b">" if rng.random() < 0.8 else b""
    locking = rng.choice([None, None, "with", "explicit", "helper"])
    nw = rng.choice([2, 3, 3, 4, 5])
    specs = []
    for k in range(nw):
        kind = "helper" if locking == "helper" else rng.choice(["raw", "buf", "buf", "text"])
        read = rng.random() < 0.5
        mode = rng.choice(["a+", "RA", "AR", "RWA", "RANI", "RAS"] if read else ["a", "A", "AW", "AN"])
        mode += "" if kind == "text" else "b" if mode[0] == "a" else "B"
        specs.append(dict(kind=kind, mode=mode, lock=locking, ts=rng.random() < 0.5, read=read, move=rng.random() < 0.5, n=rng.choice([4, 8, 15]), big=rng.random() < 0.3,
                          reopen=rng.choice([0, 0, 0.2]), opener=rng.random() < 0.2, buffering={"raw": 0, "text": rng.choice([16, 64]), "helper": None}.get(kind, rng.choice([16, 64, 8192]))))
    if old or rng.random() < 0.5 or any("N" in s["mode"] for s in specs):
        with open(path, "wb") as f:
            f.write(old)
    procs = rng.choice([[0] * nw, list(range(nw)), [k % 2 for k in range(nw)]])
    seeds = [rng.random() for _ in range(nw)]
    short = rng.random() < 0.4
    what = "%d appenders %s processes %s %s" % (nw, [(s["kind"], s["mode"], s["buffering"]) for s in specs], procs, "short writes" if short else "")
    ctx.crumb(what)
    st = os.stat(path) if os.path.exists(path) else None
    if short:
        shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=-1, st=st)
    shim.perturb(rng.getrandbits(40), rng.choice([0, 200, 600]), rng.choice([50, 300]))
    results = {}
    r0, w0 = os.pipe()
    kids = []

    def work(ks, errs, outs):
        def body(k):
            try:
                appender(rs, path, k, specs[k], random.Random(seeds[k]), outs[k])
            except Exception:
                errs.append(traceback.format_exc())
        ths = [threading.Thread(target=body, args=(k,)) for k in ks]
        with linear.jitter(ctx, random.Random(seeds[ks[0]])):
            for t in ths:
                t.start()
            for t in ths:
                t.join()
    groups = sorted(set(procs))
    for g in groups[1:]:
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(w0)
                os.read(r0, 1)  # all start together
                errs, outs = [], {k: [] for k in range(nw)}
                work([k for k in range(nw) if procs[k] == g], errs, outs)
                import pickle
                with os.fdopen(pw, "wb") as f:
                    pickle.dump((errs, outs), f)
                code = 0
            finally:
                os._exit(code)
        os.close(pw)
        kids.append((pid, pr))
    errs, outs = [], {k: [] for k in range(nw)}
    os.close(w0)
    os.close(r0)
    work([k for k in range(nw) if procs[k] == groups[0]], errs, outs)
    import pickle
    for pid, pr in kids:
        with os.fdopen(pr, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            errs.append("a child died")
            continue
        e2, o2 = pickle.loads(raw)
        errs += e2
        for k, v in o2.items():
            outs[k] += v
    shim.perturb(1, 0, 0)
    shim.clear_rules()
    ctx.count("races")
    try:
        data = open(path, "rb").read()
        if errs:
            ctx.violation("error", "an appender fails: %s [%s]" % (errs[0].strip().splitlines()[-1], what), trace=errs[0])
            return
        if not data.startswith(old):
            ctx.violation("overwritten", "what was in the file got changed: %.80r instead of %.80r [%s]" % (data[:len(old)], old, what))
            return
        body = data[len(old):]
        total = sum(len(d) for v in outs.values() for d in v)
        for k in range(nw):
            want = b"".join(outs[k])
            got = bytes(c for c in body if c in ALPHA[k])
            ctx.count("records", len(outs[k]))
            if got != want:
                ctx.violation("lost" if len(got) <= len(want) else "duplicated", "bytes of an appender are %s on file: %d bytes instead of %d [%s]" % (
                    "missing or reordered" if len(got) <= len(want) else "duplicated", len(got), len(want), what))
                return
        if len(body) != total:
            ctx.violation("junk", "%d foreign bytes appear in the file [%s]" % (len(body) - total, what))
            return
        runs = re.findall(b"|".join(b"[%s]+" % a for a in ALPHA), body)
        ctx.count("alternations", max(0, len(runs) - 1))
        if locking:
            # each record contiguous: a run of one writer must be made of whole records
            for r in runs:
                k = next(i for i, a in enumerate(ALPHA) if r[0] in a)
                ctx.count("locked_records")
                if r[-1:] != ALPHA[k][9:]:
                    ctx.violation("split", "a record appended under a lock is interrupted by another appender [%s]" % what)
                    return
        order = tuple(next(i for i, a in enumerate(ALPHA) if r[0] in a) for r in runs[:30])
        ctx.case((tuple((s["kind"], s["mode"], s["buffering"]) for s in specs), locking, short, order), len(runs) > nw, sample="%s -> %d runs" % (what, len(runs)))
    finally:
        if os.path.exists(path):
            os.unlink(path)


def sequential(ctx, rs):
    """One append stream, with outside changes of the file between its calls."""
    rng = ctx.rng
    path = ctx.fresh("q")
    with open(path, "wb") as f:
        f.write(b"#" * rng.choice([0, 10, 100]))
    kind = rng.choice(["raw", "buf", "text"])
    read = rng.random() < 0.5
    mode = rng.choice(["a+", "RA", "RAN", "RWAI"] if read else ["a", "A", "AN", "AS"])
    mode += "" if kind == "text" else "b" if mode[0] == "a" else "B"
    bs = {"raw": 0, "text": rng.choice([16, 64])}.get(kind, rng.choice([8, 64, 8192]))
    s = rs.rsopen(path, mode, buffering=bs, locking=rng.random() < 0.5, thread_safe=rng.random() < 0.5)
    ext = os.open(path, os.O_RDWR)
    now = lambda: os.pread(ext, 10 ** 6, 0)
    pending, prev = b"", now()
    log = []
    for _ in range(rng.choice([5, 15, 30])):
        # outside change
        r = rng.random()
        out = None
        if r < 0.25:
            out = b"!" * rng.choice([1, 7, 40])
            os.pwrite(ext, out, len(prev))
        elif r < 0.4:
            os.ftruncate(ext, rng.choice([0, len(prev) // 2]))
            out = "cut"
        elif r < 0.45:
            os.ftruncate(ext, len(prev) + 30)
            out = "extend"
        prev = now()
        op = rng.choice(["write", "write", "write", "flush", "seek", "read", "size", "writelines"])
        if op == "read" and not read:
            op = "seek"
        data = b""
        if op == "write":
            data = b"%x" % rng.getrandbits(24) * rng.choice([1, 2, 5, 40])
            n = s.write(data.decode() if kind == "text" else data)
            if kind == "raw":
                data = data[:n]
        elif op == "writelines":
            parts = [b"%x" % rng.getrandbits(24) for _ in range(3)]
            data = b"".join(parts)
            if kind == "raw":
                for q in parts:
                    s.write(q)
            else:
                s.writelines([q.decode() for q in parts] if kind == "text" else parts)
        elif op == "seek":
            s.seek(*rng.choice([(0,), (5,), (0, 2)]))
        elif op == "read":
            if kind == "text":
                s.seek(0)
            s.read(rng.choice([3, 50]))
            if kind == "text":
                s.seek(0)
        else:
            getattr(s, op)()
        pending += data
        d = now()
        log.append("%s outside=%.20r pending=%d" % (op, out, len(pending)))
        ctx.count("steps")
        ctx.case((kind, mode, bs, op, out if isinstance(out, str) else out and len(out), min(len(pending), 80)), bool(out))
        if not d.startswith(prev) or not pending.startswith(d[len(prev):]):
            ctx.violation("sequential", "%s on an append stream turns %d bytes into %.60r..., which is not the previous content plus pending data [%s %r %d]" % (op, len(prev), d[-60:], kind, mode, bs), history=log)
            break
        pending = pending[len(d) - len(prev):]
        if op in ("flush", "size", "seek") and pending:
            ctx.violation("pending", "after %s, %d bytes are not on file [%s %r %d]" % (op, len(pending), kind, mode, bs), history=log)
            break
        prev = d
    else:
        s.close()
        if now() != prev + pending:
            ctx.violation("sequential", "close() turns %d bytes into %d instead of adding %d [%s %r %d]" % (len(prev), len(now()), len(pending), kind, mode, bs), history=log)
    try:
        s.close()
    except Exception:
        pass
    os.close(ext)
    os.unlink(path)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    shim.lib().vs_log(0)
    n = 0
    while ctx.more(n, 40, 10 ** 6):
        ctx.crumb("case %d" % n)
        if n % 5 < 3:
            race(ctx, rs)
        else:
            sequential(ctx, rs)
        n += 1
