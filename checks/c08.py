"""C08: calls on a thread-safe stream are atomic."""
import os, sys, time
from lib import vf, shim
from lib.linear import Recorder, linearizable, overlaps, shape, Jitter

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: offline linearizability checking of recorded concurrent histories of one thread-safe stream against a byte-array "
             "model, with injected delays at system calls and at source lines")
NOTE = "Every recorded history is decided exactly (complete search); the histories and interleavings are sampled."
RULE = ("a history of 2-4 threads making 1-4 calls each on one fresh stream (raw, buffered, text; read-only, write-only, read-write, append); "
        "distinct by (layer, calls, results, interleaving of invocations and responses); non-trivial when calls of different threads overlapped.")
BUDGET = {"quick": 12, "thorough": 240}
TIMEOUT = {"quick": 150, "thorough": 1000}
MIN = {"histories": 600, "overlapping_pairs": 1000, "first_call_races": 300, "line_pauses": 1000}


def shards(tier, seed):
    return [("l%d" % i, {"i": i}) for i in range(8)]


# ---- sequential model: state = (data, position, locks, closed) --------------------------------
def line_end(data, pos, limit=None):
    k = data.find(b"\n", pos)
    e = len(data) if k < 0 else k + 1
    e = max(e, pos)
    if limit is not None and limit >= 0:
        e = min(e, pos + limit)
    return e


def lines(data, pos, hint=None):
    out = []
    while pos < len(data):
        e = line_end(data, pos)
        out.append(data[pos:e])
        pos = e
        if hint and hint > 0 and sum(map(len, out)) >= hint:
            break
    return out, pos


def put(data, pos, b):
    if not b:
        return data
    if pos > len(data):
        data = data + b"\0" * (pos - len(data))
    return data[:pos] + b + data[pos + len(b):]


def model(text, append, layer):
    conv = (lambda b: b.decode("latin-1")) if text else (lambda b: b)

    def step(state, op, res):
        data, pos, lk, closed = state
        name, a = op[0], op[1:]
        if name == "close":
            return [(data, pos, frozenset(), True)] if res == ("ok", None) else []
        if name == "closed":
            return [state] if res == ("ok", closed) else []
        if closed:
            if op == ("readline", 0) and res in (("ok", b""), ("ok", "")):
                return [state]
            return [state] if res[0] == "exc" and res[1] in ("ValueError", "BadValueTypeError") else []
        if name == "lock" and text and res[:2] == ("exc", "OSError") and "next()" in res[2]:
            return [state]  # like tell(), not available during an iteration
        if name == "lock":
            s, n = a
            e = s + n if n else float("inf")
            hit = any(max(s, x) < min(e, y) for (x, y) in lk)
            if hit:
                return [state] if res[:2] == ("exc", "RuntimeError") else []
            return [(data, pos, lk | {(s, e)}, closed)] if res[0] == "ok" else []
        if name == "unlock":
            s, n = a
            e = s + n if n else float("inf")
            if (s, e) in lk:
                return [(data, pos, lk - {(s, e)}, closed)] if res[0] == "ok" else []
            return [state] if res[:2] == ("exc", "RuntimeError") else []
        if name == "next":
            if res[0] == "exc":
                return [state] if res[1] == "StopIteration" and pos >= len(data) else []
            e = line_end(data, pos)
            return [(data, e, lk, closed)] if e > pos and res[1] == conv(data[pos:e]) else []
        if res[0] != "ok":
            return []
        r = res[1]
        rest = data[pos:] if pos < len(data) else b""
        if name == "read":
            n = a[0]
            w = rest if n is None or n < 0 else rest[:n]
            return [(data, pos + len(w), lk, closed)] if r == conv(w) else []
        if name == "readinto":
            w = rest[:a[0]]
            return [(data, pos + len(w), lk, closed)] if r == (len(w), w) else []
        if name == "read1":
            if r == b"" and not rest or r and rest[:len(r)] == r and len(r) <= a[0]:
                return [(data, pos + len(r), lk, closed)]
            return []
        if name == "peek":
            return [state] if rest[:len(r)] == r and (r or not rest) else []
        if name == "readline":
            e = line_end(data, pos, a[0])
            w = data[pos:e] if pos < len(data) else b""
            return [(data, pos + len(w), lk, closed)] if r == conv(w) else []
        if name == "readlines":
            w, p = lines(data, pos)
            return [(data, max(p, pos), lk, closed)] if r == [conv(x) for x in w] else []
        if name in ("write", "writelines"):
            b = a[0] if name == "write" else b"".join(a[0])
            if r != (len(b) if name == "write" else None):
                return []
            p = len(data) if append else pos
            return [(put(data, p, b), p + len(b) if b or not append else pos, lk, closed)]
        if name == "seek":
            off, wh = a
            p = off if wh == 0 else pos + off if wh == 1 else len(data) + off
            return [(data, p, lk, closed)] if r == p else []
        if name == "tell":
            return [state] if r == pos else []
        if name == "size":
            return [state] if r == len(data) else []
        if name == "truncate":
            n = pos if a[0] is None else a[0]
            d = data[:n] + b"\0" * (n - len(data))
            return [(d, pos, lk, closed)] if r == n else []
        if name in ("flush", "sync"):
            return [state] if r is None else []
        raise ValueError(name)
    return step


def call(st, op, text, managers=None, manner=0.0):
    name, a = op[0], op[1:]
    if name == "close" and manner < 0.5:
        return lambda: st.__exit__(None, None, None)
    if managers is not None and name == "lock":
        def lock():
            m = st.lock_file(timeout=0, offset=a[0], length=a[1])
            managers[a] = m
            return None
        return lock
    if managers is not None and name == "unlock" and manner < 0.5:
        def leave():
            m = managers.pop(a, None)  # a manager can be used only once
            if m is None:
                return st.unlock_file(offset=a[0], length=a[1])
            with m:
                pass
        return leave
    t = (lambda b: b.decode("latin-1")) if text else (lambda b: b)
    if name == "read":
        return lambda: st.read() if a[0] is None else st.read(a[0])
    if name == "readinto":
        def f():
            b = bytearray(a[0])
            n = st.readinto(b)
            return (n, bytes(b[:n]))
        return f
    if name == "write":
        return lambda: st.write(t(a[0]))
    if name == "writelines":
        return lambda: st.writelines([t(x) for x in a[0]])
    if name == "readline":
        return lambda: st.readline() if a[0] is None else st.readline(a[0])
    if name == "next":
        return (lambda: next(st)) if manner < 0.5 else lambda: next(iter(st))
    if name == "lock":
        return lambda: st.lock_file(timeout=0, offset=a[0], length=a[1])
    if name == "unlock":
        return lambda: st.unlock_file(offset=a[0], length=a[1])
    if name == "closed":
        return lambda: st.closed
    if name in ("size", "tell", "flush", "close", "readlines", "sync"):
        return lambda: getattr(st, name)()
    if name == "truncate":
        return lambda: st.truncate() if a[0] is None else st.truncate(a[0])
    return lambda: getattr(st, name)(*a)


class Gen:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def token(self):
        self.n += 1
        r = self.rng
        return (b"<%d" % self.n) + b"abcdefghij"[:r.choice([0, 1, 3, 10])] * r.choice([1, 1, 2]) + (b"\n" if r.random() < 0.4 else b"") + b">"

    def op(self, flavour):
        r = self.rng
        kinds = {
            "r": ["read", "read", "readline", "next", "seek", "tell", "readinto", "size", "readlines", "lock", "unlock", "flush", "read1", "peek", "closed"],
            "w": ["write", "write", "write", "writelines", "seek", "tell", "size", "truncate", "flush", "sync", "lock", "unlock"],
            "rw": ["read", "readline", "next", "write", "write", "writelines", "seek", "seek", "tell", "truncate", "size", "flush", "readinto", "readlines",
                   "sync", "lock", "unlock", "peek", "read1"],
            "a": ["write", "write", "writelines", "size", "flush", "sync"],
            "raw": ["read", "readline", "next", "write", "write", "seek", "tell", "truncate", "size", "readinto", "lock", "unlock", "writelines", "readlines"],
            "tr": ["read", "read", "readline", "readline", "next", "seek", "size", "readlines", "lock", "unlock"],
            "tr2": ["read", "readline", "seek", "tell", "size"],
            "tw": ["write", "write", "write", "writelines", "flush", "size", "tell", "sync", "lock", "unlock"],
        }[flavour]
        k = r.choice(kinds)
        if r.random() < 0.03:
            return ("close",)
        text = flavour[0] == "t"
        if k == "read":
            return (k, r.choice([None, 0, 1, 3, 7, 20]))
        if k == "readline":
            return (k, r.choice([None, None, 3, 0]))
        if k in ("readinto", "read1"):
            return (k, r.choice([1, 4, 16]))
        if k == "peek":
            return (k,)
        if k == "write":
            return (k, self.token())
        if k == "writelines":
            return (k, tuple(self.token() for _ in range(r.choice([2, 3, 4]))))
        if k == "seek":
            if text:
                return (k, r.choice([0, 2, 5, 9]), 0)
            return r.choice([(k, r.randrange(0, 40), 0), (k, r.randrange(0, 4), 1), (k, 0, 2), (k, 3, 2)])
        if k == "truncate":
            return (k, r.choice([None, 0, 5, 12, 50]))
        if k in ("lock", "unlock"):
            return (k,) + r.choice([(0, 5), (3, 5), (8, None), (0, 5)])
        return (k,)


def one(ctx, rs, gen):
    rng = ctx.rng
    path = ctx.fresh("h")
    init = b"".join(b"%dxyz"[:rng.randrange(2, 6)].replace(b"%d", b"%d" % i) + (b"\n" if rng.random() < 0.7 else b"") for i in range(rng.choice([0, 4, 9])))
    flavour = rng.choice(["r", "w", "rw", "rw", "rw", "a", "raw", "raw", "tr", "tr2", "tw"])
    text, append = flavour[0] == "t", flavour == "a"
    mode = {"r": "rb", "w": rng.choice(["WB", "WNB"]), "rw": "r+b", "a": "ab", "raw": "r+b", "tr": "r", "tr2": "r", "tw": rng.choice(["w", "W"])}[flavour]
    if flavour == "tw":
        init = b""
    with open(path, "wb") as f:
        f.write(init)
    buffering = 0 if flavour == "raw" else rng.choice([-1, -1, 1, 4, 16, 64])
    if not text and buffering == 1:
        buffering = 8
    kw = dict(locking=False, buffering=buffering, thread_safe=True)
    if text:
        kw.update(encoding="latin-1", newline="\n")
    interproc = rng.random() < 0.08
    if interproc and mode == "r+b":
        mode = "RWNIB"
    st = rs.rsopen(path, mode, **kw)
    nt = rng.choice([2, 2, 3, 3, 4])
    programs, hint, managers = [], [], {}
    for k in range(nt):
        ops = [gen.op(flavour) for _ in range(rng.choice([1, 2, 2, 3, 4]) if nt < 4 else rng.choice([1, 2, 2]))]
        hint.append(ops)
        programs.append([(op, call(st, op, text, managers, rng.random())) for op in ops])
    rec = Recorder()
    shim.perturb(rng.getrandbits(40), rng.choice([0, 100, 300, 600]), rng.choice([20, 100, 300]))
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    jit = Jitter(rng.random(), ("/rsfile/", "_pyio.py"), rng.choice([0.02, 0.05, 0.1, 0.2]), rng.choice([20, 100, 300]))
    if rng.random() < 0.75:
        with jit:
            calls = rec.run(programs)
    else:
        calls = rec.run(programs)
    shim.perturb(0, 0, 0)
    sys.setswitchinterval(0.005)
    ctx.count("line_pauses", jit.hits)
    if rec.stuck:
        ctx.violation("stuck", "calls on a thread-safe stream never return", programs=hint, flavour=flavour)
        raise vf.StopShard()
    # final observations, made sequentially
    if not any(op == ("close",) for p in hint for op in p):
        tail = [("tell",)] if flavour not in ("a", "tr") else []
        if flavour in ("r", "rw", "raw"):
            tail += [("seek", 0, 0), ("read", -1) if flavour != "raw" else ("readlines",)]
        rec2 = Recorder()
        rec2.clock = rec.clock
        calls = calls + [(99,) + c[1:] for c in rec2.run([[(op, call(st, op, text)) for op in tail]])] if tail else calls
    else:
        tail = [("close",)]
    st.close()
    with open(path, "rb") as f:
        final = f.read()
    os.unlink(path)
    step = model(text, append, flavour)
    base = (init, len(init) if append else 0, frozenset(), False)
    # the final content is one more, last, observation
    T = next(rec.clock)

    def step2(state, op, res):
        if op == ("final",):
            return [state] if state[0] == res[1] else []
        return step(state, op, res)
    # an order of the tail among itself is by real time
    calls2 = calls + [(98, ("final",), T, T + 1, ("ok", final))]
    w = linearizable(calls2, base, step2)
    ctx.count("histories")
    ov = overlaps(calls)
    ctx.count("overlapping_pairs", ov)
    if any(a[2] < b[3] and b[2] < a[3] for a in calls for b in calls if a[0] != b[0] and a[2] == min(c[2] for c in calls if c[0] == a[0]) and b[2] == min(
            c[2] for c in calls if c[0] == b[0])):
        ctx.count("first_call_races")
    if w is None:
        order = sorted(calls2, key=lambda c: c[2])
        names = sorted({c[1][0] for c in calls if c[1][0] not in ("tell", "size", "flush", "closed")})
        bad = sorted({c[4][1] for c in calls if c[4][0] == "exc"})
        ctx.violation("not-linearizable:%s" % flavour, "no sequential order of the calls explains the results (%s stream, %s%s)" % (
            flavour, mode, ", exceptions " + ",".join(bad) if bad else ""), initial=init, calls=[(c[0], c[1], c[2], c[3], c[4]) for c in order], kw=repr(kw))
    ctx.case((flavour, buffering, tuple((c[0], c[1], c[4][:2] if c[4][0] == "exc" else repr(c[4])) for c in calls), shape(calls)), ov > 0,
             sample={"stream": flavour, "calls": [repr(c)[:150] for c in sorted(calls, key=lambda c: c[2])][:12], "equivalent order": w})


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    gen = Gen(ctx.rng)
    n = 0
    while ctx.more(n, 100, 10**7):
        if n % 20 == 0:
            ctx.crumb("history %d" % n)
            shim.reset()
        one(ctx, rs, gen)
        n += 1
