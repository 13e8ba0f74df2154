"""C19: pipes, ttys and other non-seekable files pass data faithfully."""
import errno, io, os, pty, random, socket, threading, time, traceback, tty
from lib import vf, shim

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: conservation of the bytes going through pipes, fifos, ptys and sockets under random chunking, pacing and short transfers, with refused operations interleaved; "
             "an online monitor of the system calls watches for any lock or truncation; results on non-blocking descriptors are compared with those of the C implementation of the standard library")
NOTE = "Sampled data, chunkings and paces. A non-blocking text stream is not covered (the standard library fails on it as well). Devices: /dev/null, zero, full, urandom."
RULE = ("one transfer through one descriptor; distinct by (kind, direction, stream options, calls made, who was slower); non-trivial when the data went through in several system calls "
        "or a would-block was seen.")
BUDGET = {"quick": 11, "thorough": 180}
TIMEOUT = {"quick": 120, "thorough": 900}
MIN = {"transfers": 600, "bytes": 10 ** 6, "refused": 3000, "monitored_calls": 20000, "would_block": 800, "nonblocking_steps": 2000, "partial_writes": 300, "opens": 800, "broken": 20}


def shards(tier, seed):
    return [("p%d" % i, {"i": i}) for i in range(8)]


class Odd(Exception):
    pass


# ------------------------------------------------------------------------------------------------
# descriptors

def ends(ctx, rng, kind):
    """Returns (read fd, write fd, path of the reading end or None)."""
    if kind == "fifo":
        p = ctx.fresh("fifo")
        os.mkfifo(p)
        k = os.open(p, os.O_RDWR)
        r = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
        w = os.open(p, os.O_WRONLY)
        os.set_blocking(r, True)
        os.close(k)
        return r, w, p
    if kind == "pty":
        m, s = pty.openpty()
        tty.setraw(s)
        return (m, s, None) if rng.random() < 0.5 else (s, m, None)
    if kind == "socket":
        a, b = socket.socketpair()
        if rng.random() < 0.5:
            b.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 2048)
        return a.detach(), b.detach(), None
    r, w = os.pipe()
    if rng.random() < 0.5:
        import fcntl
        fcntl.fcntl(w, 1031, 4096)  # F_SETPIPE_SZ
    return r, w, None


def payload(rng, text):
    n = rng.choice([0, 1, 10, 200, 3000, 20000, 100000])
    if text:
        s = "".join(rng.choice("abcé€\n\U0001f600z") for _ in range(min(n, 300)))
        return (s * (1 + n // 300)).encode()
    unit = bytes(rng.randrange(256) for _ in range(min(n, 251))) + (b"\n" if n else b"")
    return unit * (1 + n // 251) if n else b""


def options(rng, text, raw):
    o = dict(thread_safe=rng.random() < 0.5, locking=rng.random() < 0.7)
    if text:
        o.update(encoding="utf-8", newline=rng.choice(["", "\n"]), buffering=rng.choice([None, 1, 16, 100]))
    else:
        o["buffering"] = 0 if raw else rng.choice([None, 1, 2, 16, 100, 8192, 70000])
    if rng.random() < 0.3:
        o["timeout"] = 0
    return o


MODES = {"r": ["r", "R", "RI", "RN"], "w": ["w", "a", "x", "W", "WE", "A", "WS", "WN", "AE", "WC", "WI"], "+": ["r+", "w+", "a+", "RW", "RWE", "RA"]}


def spell(rng, way, text):
    m = rng.choice(MODES[way])
    if text:
        return m + rng.choice(["", "t" if m.islower() or m[0].islower() else "T"])
    return m + ("b" if m[0].islower() else "B")


def wrap(rs, rng, fd, path, mode, o, way):
    """Opens the stream in one of the possible ways; returns (stream, origin). `fd` is consumed, unless closefd is False."""
    how = rng.choice(["name", "fileno", "fileno", "handle", "opener", "keep"] + (["path"] * 3 if path else []))
    if how == "path" and way == "r" and not ("C" in mode or "x" in mode):
        s = rs.rsopen(path, mode, **o)
        os.close(fd)
        return s, how
    if how == "opener":
        return rs.rsopen("whatever", mode, opener=lambda n, f: fd, **o), how
    if how == "handle":
        return rs.rsopen(mode=mode, handle=fd, **o), how
    if how == "keep":
        return rs.rsopen(mode=mode, fileno=fd, closefd=False, **o), how
    if how == "name" and mode[0].islower():
        return rs.rsopen(fd, mode, **o), how
    return rs.rsopen(mode=mode, fileno=fd, **o), "fileno"


REFUSED = [("seek", 0), ("seek", 5), ("seek", 0, 1), ("seek", 0, 2), ("seek", -1, 1), ("tell",), ("truncate",), ("truncate", 0), ("truncate", 3), ("lock_file",), ("lock_file", 0), ("lock_file", 0, 5, 2),
           ("lock_file", None, None, 0, 2), ("unlock_file",), ("unlock_file", 5, 2), ("sync",)]


def refused(ctx, s, op, text):
    """An operation which makes no sense on that file must be refused."""
    kw = {}
    if op[0] == "lock_file" and len(op) > 1:
        op, kw = op[:1], dict(zip(("timeout", "length", "offset", "whence"), op[1:]))
    try:
        r = getattr(s, op[0])(*op[1:], **kw)
    except (OSError, ValueError) as e:
        if isinstance(e, ValueError) and not isinstance(e, (OSError, io.UnsupportedOperation)):
            raise Odd("%s%s raises %r" % (op[0], op[1:], e))
        if isinstance(e, BlockingIOError):
            return
        ctx.count("refused")
        return
    if op[0] == "sync":
        return  # a descriptor which can't be synced may tell it or not
    raise Odd("%s%s is not refused but returns %r" % (op[0], op[1:], r))


def calls_ok(ctx, fd, frm, what):
    """No lock and no truncation among the system calls on that descriptor."""
    n = 0
    for r in shim.records(frm):
        if r.fd != fd:
            continue
        n += 1
        if r.call == shim.FTRUNC or r.call == shim.FCNTL and r.x1 in (6, 7, 5, 36, 37, 38):
            raise Odd("%r is attempted on the descriptor" % (r,))
    ctx.count("monitored_calls", n)
    return n


# ------------------------------------------------------------------------------------------------
# blocking transfers

def feed(fd, data, rng, slow, errs, close=True):
    try:
        pos = 0
        while pos < len(data):
            pos += os.write(fd, data[pos:pos + rng.choice([1, 7, 100, 5000, 50000] if len(data) < 5000 else [500, 5000, 50000])])
            if slow and rng.random() < 0.3:
                time.sleep(rng.random() * 0.002)
    except OSError as e:
        errs.append(repr(e))
    finally:
        if close:
            os.close(fd)


def drain(fd, out, rng, slow, want=None):
    try:
        while want is None or len(out) < want:
            d = os.read(fd, rng.choice([1, 50, 4096, 65536] if len(out) < 3000 else [4096, 65536]))
            if not d:
                break
            out += d
            if slow and rng.random() < 0.3:
                time.sleep(rng.random() * 0.002)
    except OSError as e:
        if e.errno != errno.EIO:
            raise
    finally:
        os.close(fd)


def reading(ctx, rs):
    rng = ctx.rng
    kind = rng.choice(["pipe", "pipe", "fifo", "socket", "pty"])
    text = rng.random() < 0.35
    raw = not text and rng.random() < 0.3
    data = payload(rng, text)
    if kind == "pty":
        data = data[:3000] if not text else data.decode()[:900].encode()
    r, w, path = ends(ctx, rng, kind)
    o = options(rng, text, raw)
    mode = spell(rng, "r", text)
    what = "%s %r %s" % (kind, mode, o)
    ctx.crumb(what)
    frm = shim.mark()
    shim.lib().vs_track(r, 1)
    s, how = wrap(rs, rng, r, path, mode, o, "r")
    fd = s.fileno()
    shim.lib().vs_track(fd, 1)
    short = rng.random() < 0.3
    if short:
        shim.Rule(shim.READ, shim.SHORT_RANDOM, count=-1, fd=fd)
    slow = rng.choice(["", "feeder", "reader"])
    errs = []
    f2 = random.Random(rng.random())
    th = threading.Thread(target=feed, args=(w, data, f2, slow == "feeder", errs, kind != "pty"))
    th.start()
    got, calls = [], []
    try:
        if s.seekable():
            raise Odd("seekable() is True")
        left = len(data)
        eof = False
        sizes = [1, 2, 10, 100, 5000] if left < 5000 else [1000, 5000, 30000]
        while not eof and (kind != "pty" or left > 0):
            if rng.random() < 0.2 or len(calls) == 0:
                refused(ctx, s, rng.choice(REFUSED), text)
            if slow == "reader" and rng.random() < 0.3:
                time.sleep(rng.random() * 0.002)
            n = rng.choice(sizes)
            if text:
                c = rng.choice(["read", "read", "readline", "next", "all", "some"]) if kind != "pty" else "read1c"
                if c == "read":
                    d = s.read(n)
                    eof = not d
                    if d and len(d) != n and len("".join(got) + d) != len(data.decode()):
                        raise Odd("read(%d) returns %d characters before the end" % (n, len(d)))
                elif c == "read1c":
                    d = s.read(1)
                elif c in ("readline", "next"):
                    d = s.readline() if c == "readline" else next(s, "")
                    eof = not d
                    if d and not d.endswith("\n") and len("".join(got) + d) != len(data.decode()):
                        raise Odd("%s returns a part of a line: %.40r" % (c, d))
                elif c == "all":
                    if rng.random() < 0.8:
                        continue
                    d = s.read()
                    eof = True
                else:
                    d = "".join(s.readlines(n))
                    eof = not d
                left -= len(d.encode())
            else:
                c = rng.choice(["read", "read", "readinto", "readline", "next", "all", "lines", "read1", "peek", "readinto1"]) if kind != "pty" else "least"
                if raw and c in ("read1", "peek", "readinto1", "lines", "next", "readline"):
                    c = "read"
                done = sum(map(len, got))
                if c == "least":  # never asks for more than what is coming
                    d = s.read(min(n, left) if rng.random() < 0.5 else 1) if raw or o["buffering"] == 1 else s.read(1)
                elif c == "read":
                    d = s.read(n)
                    eof = not d
                    if not raw and len(d) != n and done + len(d) != len(data):
                        raise Odd("read(%d) returns %d bytes before the end" % (n, len(d)))
                elif c in ("readinto", "readinto1"):
                    b = bytearray(b"\xee" * n)
                    k = getattr(s, c)(b)
                    d = bytes(b[:k])
                    eof = not k
                    if not raw and c == "readinto" and k != n and done + k != len(data):
                        raise Odd("readinto(%d) returns %d bytes before the end" % (n, k))
                    if b[k:].strip(b"\xee"):
                        raise Odd("%s changes the buffer beyond the bytes it announces" % c)
                elif c == "peek":
                    p = s.peek(n)
                    if p != data[done:done + len(p)] or (not p and done < len(data)):
                        raise Odd("peek gives wrong data")
                    continue
                elif c == "read1":
                    d = s.read1(n)
                    eof = not d
                elif c in ("readline", "next"):
                    lim = rng.choice([None, n])
                    d = next(s, b"") if c == "next" else s.readline() if lim is None else s.readline(lim)
                    eof = not d
                    if d and not d.endswith(b"\n") and done + len(d) != len(data) and (c == "next" or len(d) != lim):
                        raise Odd("%s returns a part of a line (%d bytes)" % (c, len(d)))
                elif c == "lines":
                    d = b"".join(s.readlines(n))
                    eof = not d
                else:
                    if rng.random() < 0.8:
                        continue
                    d = s.read(-1)
                    eof = True
                    if done + len(d) != len(data):
                        raise Odd("read until the end returns %d bytes of %d" % (len(d), len(data) - done))
                left -= len(d)
            calls.append(c)
            got.append(d)
        result = "".join(got).encode() if text else b"".join(got)
        if result != data:
            k = next((i for i, (x, y) in enumerate(zip(result, data)) if x != y), min(len(result), len(data)))
            raise Odd("%d bytes sent, %d received, first difference at %d" % (len(data), len(result), k))
        if kind != "pty" and not text:
            for _ in range(2):
                if s.read(3) != b"" or s.read() != b"":
                    raise Odd("the end of file is not persistent")
        if errs:
            raise Odd("the feeder fails: %s" % errs[0])
        n = calls_ok(ctx, fd, frm, what)
        s.close()
        after_close(s, fd, how)
        ctx.count("transfers")
        ctx.count("bytes", len(data))
        ctx.case(("in", kind, mode, how, tuple(sorted(o.items(), key=str)), slow, tuple(calls[:6]), short), n > 2, sample="%s by %s: %d bytes in %d calls" % (what, how, len(data), len(calls)))
    except (Odd, OSError, ValueError) as e:
        ctx.violation("reading:%s" % kind, "%s [%s by %s, %s slower, calls %s]" % (e if isinstance(e, Odd) else repr(e), what, how, slow or "none", calls[-4:]), trace=traceback.format_exc())
    finally:
        shim.clear_rules()
        finish(s, fd, th)
        if kind == "pty":
            os.close(w)
        if path:
            os.unlink(path)


def after_close(s, fd, how):
    try:
        os.fstat(fd)
        alive = True
    except OSError:
        alive = False
    if alive != (how == "keep"):
        raise Odd("the descriptor is %s after close()" % ("still open" if alive else "closed although closefd is False"))


def finish(s, fd, th, alive=None):
    try:
        s.close()
    except (OSError, ValueError):
        pass
    shim.lib().vs_track(fd, 0)
    try:
        os.close(fd)  # if closefd was False (no other thread opens files here, except the peer which only closes)
    except OSError:
        pass
    th.join(20)


def writing(ctx, rs):
    rng = ctx.rng
    kind = rng.choice(["pipe", "pipe", "fifo", "socket", "pty"])
    text = rng.random() < 0.35
    raw = not text and rng.random() < 0.3
    r, w, path = ends(ctx, rng, kind)
    o = options(rng, text, raw)
    mode = spell(rng, "w", text)
    what = "%s %r %s" % (kind, mode, o)
    ctx.crumb(what)
    frm = shim.mark()
    shim.lib().vs_track(w, 1)
    s, how = wrap(rs, rng, w, None, mode, o, "w")
    fd = s.fileno()
    shim.lib().vs_track(fd, 1)
    short = rng.random() < 0.3
    if short:
        shim.Rule(shim.WRITE, shim.SHORT_RANDOM, count=-1, fd=fd)
    slow = rng.choice(["", "drain", "writer"])
    out = bytearray()
    data = payload(rng, text)
    if kind == "pty":
        data = data[:3000] if not text else data.decode()[:900].encode()
    want = None if kind != "pty" else len(data)
    th = threading.Thread(target=drain, args=(r, out, random.Random(rng.random()), slow == "drain", want))
    th.start()
    calls = []
    try:
        if s.seekable():
            raise Odd("seekable() is True")
        src = data.decode() if text else data
        pos, flushed = 0, 0
        while pos < len(src):
            if rng.random() < 0.2 or not calls:
                refused(ctx, s, rng.choice(REFUSED), text)
            if slow == "writer" and rng.random() < 0.3:
                time.sleep(rng.random() * 0.002)
            d = src[pos:pos + rng.choice([1, 5, 40, 300, 20000] if len(src) < 3000 else [300, 2000, 60000])]
            c = rng.choice(["write", "write", "write", "lines", "flush"])
            if c == "lines" and raw:
                c = "write"
            if c == "flush":
                s.flush()
                end = time.monotonic() + 10
                n = len(src[:pos].encode() if text else src[:pos])
                while len(out) < n and time.monotonic() < end:
                    time.sleep(0.0003)
                if len(out) < n:
                    raise Odd("%d bytes written and flushed, %d arrive" % (n, len(out)))
            elif c == "lines":
                s.writelines([d[:3], d[3:]])
                pos += len(d)
            else:
                n = s.write(d if text or rng.random() < 0.7 else rng.choice([bytearray, memoryview])(d))
                if n is None or not (n == len(d) or raw and 0 < n <= len(d)):
                    raise Odd("write() of %d returns %r" % (len(d), n))
                if n < len(d):
                    ctx.count("partial_writes")
                pos += n
            calls.append(c)
        n = calls_ok(ctx, fd, frm, what)
        if kind == "pty":
            s.flush()
            th.join(20)  # a pty drops what has not been read when an end gets closed
        s.close()
        after_close(s, fd, how)
        if how == "keep":
            os.close(fd)
        th.join(20)
        if th.is_alive() or bytes(out) != data:
            k = next((i for i, (x, y) in enumerate(zip(out, data)) if x != y), min(len(out), len(data)))
            raise Odd("%d bytes written, %d arrive, first difference at %d" % (len(data), len(out), k))
        ctx.count("transfers")
        ctx.count("bytes", len(data))
        ctx.case(("out", kind, mode, how, tuple(sorted(o.items(), key=str)), slow, tuple(calls[:6]), short), n > 2)
    except (Odd, OSError, ValueError) as e:
        ctx.violation("writing:%s" % kind, "%s [%s by %s, %s slower, calls %s]" % (e if isinstance(e, Odd) else repr(e), what, how, slow or "none", calls[-4:]), trace=traceback.format_exc())
    finally:
        shim.clear_rules()
        finish(s, fd, th)
        if path:
            os.unlink(path)


def duplex(ctx, rs):
    """Unbuffered read-write streams on sockets, ptys and fifos; buffered ones are refused like by the standard library."""
    rng = ctx.rng
    kind = rng.choice(["socket", "pty", "fifo"])
    path = None
    if kind == "socket":
        a, b = [x.detach() for x in socket.socketpair()]
    elif kind == "pty":
        a, b = pty.openpty()
        tty.setraw(b)
    else:
        path = ctx.fresh("ff")
        os.mkfifo(path)
        a = os.open(path, os.O_RDWR)
        b = None
    mode = spell(rng, "+", False)
    o = options(rng, False, rng.random() < 0.7)
    what = "%s %r %s" % (kind, mode, o)
    ctx.crumb(what)
    frm = shim.mark()
    shim.lib().vs_track(a, 1)
    try:
        try:
            s = rs.rsopen(mode=mode, fileno=a, closefd=False, **o)
        except OSError as e:
            if o["buffering"] == 0 or not isinstance(e, io.UnsupportedOperation):
                raise Odd("opening fails with %r" % e)
            ctx.count("refused")
            os.fstat(a)
            return
        if o["buffering"] != 0:
            raise Odd("a buffered read-write stream is accepted although the file has no position")
        for k in range(20):
            d = os.urandom(rng.choice([1, 10, 500]))
            refused(ctx, s, rng.choice(REFUSED), False)
            n = s.write(d)
            if kind == "fifo":
                e = s.read(n)
            else:
                e = os.read(b, n)
                os.write(b, d[::-1])
                if s.read(len(d)) != d[::-1]:
                    raise Odd("data received differ")
            if e != d[:n]:
                raise Odd("data sent differ")
        s.close()
        os.fstat(a)
        calls_ok(ctx, a, frm, what)
        ctx.count("transfers")
        ctx.case(("duplex", kind, mode, tuple(sorted(o.items(), key=str))), True)
    except (Odd, OSError, ValueError) as e:
        ctx.violation("duplex:%s" % kind, "%s [%s]" % (e if isinstance(e, Odd) else repr(e), what), trace=traceback.format_exc())
    finally:
        shim.lib().vs_track(a, 0)
        for fd in (a, b):
            if fd is not None:
                os.close(fd)
        if path:
            os.unlink(path)


# ------------------------------------------------------------------------------------------------
# non-blocking descriptors

def result(f):
    try:
        return ("ok", f())
    except Exception as e:
        r = ("exc", [c.__name__ for c in type(e).__mro__ if c in (BlockingIOError, BrokenPipeError, OSError, ValueError, TypeError)][:1], getattr(e, "characters_written", None) if isinstance(e, BlockingIOError) else None)
        e.__traceback__ = None
        return r


def nb_reading(ctx, rs):
    """The same history on a stream of rsfile and on a stream of the standard library must give the same results."""
    rng = ctx.rng
    raw = rng.random() < 0.3
    bs = 0 if raw else rng.choice([1, 2, 16, 100, 8192])
    pairs = []
    for k in range(2):
        if k == 0:
            kind = rng.choice(["pipe", "socket"])
        if kind == "pipe":
            r, w = os.pipe()
        else:
            r, w = [x.detach() for x in socket.socketpair()]
        os.set_blocking(r, False)
        pairs.append((r, w))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = io.open(pairs[0][0], "rb", buffering=bs)
    s = rs.rsopen(mode=rng.choice(["rb", "RB"]), fileno=pairs[1][0], buffering=bs, thread_safe=rng.random() < 0.5, locking=rng.random() < 0.7)
    what = "non-blocking %s, buffering=%d" % (kind, bs)
    ctx.crumb(what)
    log = []
    fed = b""
    taken = b""
    try:
        closed = False
        for _ in range(rng.choice([5, 20, 40])):
            if not closed and rng.random() < 0.45:
                d = rng.choice([b"a", b"xyz", b"line\n", b"0123456789" * 5, bytes(range(200)), b"\n", b"ab\ncd\nef"])
                for _, w in pairs:
                    os.write(w, d)
                fed += d
                log.append("feed %.20r" % d)
            elif not closed and rng.random() < 0.04:
                for _, w in pairs:
                    os.close(w)
                closed = True
                log.append("end")
            n = rng.choice([0, 1, 2, 3, 10, 60, 300])
            c = rng.choice(["read", "read", "readall", "readinto", "read1", "peek", "readline", "lreadline", "readinto1", "readlines", "next"])
            if raw and c not in ("read", "readall", "readinto"):
                c = "read"

            def call(x):
                if c == "read":
                    return x.read(n)
                if c == "readall":
                    return x.read()
                if c in ("readinto", "readinto1"):
                    b = bytearray(n)
                    k = getattr(x, c)(b)
                    return k, bytes(b[:k or 0])
                if c == "read1":
                    return x.read1(n)
                if c == "peek":
                    return x.peek(n)
                if c == "readline":
                    return x.readline()
                if c == "lreadline":
                    return x.readline(n)
                if c == "readlines":
                    return x.readlines()
                return next(x, None)
            a, b = result(lambda: call(ref)), result(lambda: call(s))
            log.append("%s(%d) -> %.60r" % (c, n, b))
            ctx.count("nonblocking_steps")
            if a == ("ok", None) or a == ("ok", (None, b"")):
                ctx.count("would_block")
            same = a == b
            if c == "peek" and a[0] == b[0] == "ok":
                # how much is read ahead is free
                same = bool(a[1]) == bool(b[1]) and fed[len(taken):].startswith(b[1])
            elif c in ("read1", "readinto1") and a[0] == b[0] == "ok":
                # the number of bytes may depend on what had been read ahead
                da, db = (a[1], b[1]) if c == "read1" else (a[1][1], b[1][1])
                same = bool(da) == bool(db) and (c == "read1" or (a[1][0] is None) == (b[1][0] is None)) and fed[len(taken):].startswith(db)
                if same and da != db:
                    # bring both streams to the same position
                    more, lag = (ref, len(db) - len(da)) if len(db) > len(da) else (s, len(da) - len(db))
                    extra = more.read(lag)
                    if len(extra or b"") != lag:
                        raise Odd("bytes are missing after %s" % c)
                    taken += max(da, db, key=len)
                    continue
            if not same:
                raise Odd("%s(%d) gives %.80r where the standard library gives %.80r" % (c, n, b, a))
            if b[0] == "ok" and c != "peek" and b[1]:
                v = b[1]
                taken += v[1] if isinstance(v, tuple) else b"".join(v) if isinstance(v, list) else v
            if not fed.startswith(taken):
                raise Odd("the data read are not those sent")
        ctx.case(("nb-in", kind, bs, tuple(l.split("(")[0] for l in log[:8])), True, sample="%s: %s" % (what, log[:6]))
    except (Odd, OSError, ValueError) as e:
        ctx.violation("nonblocking-read", "%s [%s]" % (e if isinstance(e, Odd) else repr(e), what), history=log, trace=traceback.format_exc())
    finally:
        ref.close()
        s.close()
        if not closed:
            for _, w in pairs:
                os.close(w)


def nb_writing(ctx, rs):
    """Conservation: the bytes accepted are those which arrive, once and in order."""
    rng = ctx.rng
    kind = rng.choice(["pipe", "socket"])
    r, w, _ = ends(ctx, rng, kind)
    os.set_blocking(r, False)
    os.set_blocking(w, False)
    text = rng.random() < 0.2
    raw = not text and rng.random() < 0.4
    bs = 0 if raw else rng.choice([1, 16, 100, 5000])
    o = dict(encoding="utf-8", newline="\n") if text else {}
    s = rs.rsopen(mode=rng.choice(["w", "W", "A", "a"]).replace("w", "w" if text else "wb").replace("a", "a" if text else "ab").replace("W", "W" if text else "WB").replace("A", "A" if text else "AB"),
                  fileno=w, buffering=bs or (0 if raw else 1), thread_safe=rng.random() < 0.5, locking=rng.random() < 0.5, **o)
    what = "non-blocking %s, buffering=%d%s" % (kind, bs, " text" if text else "")
    ctx.crumb(what)
    accepted, out, log = b"", b"", []
    blocked = 0
    uncertain = False
    try:
        for k in range(rng.choice([10, 30])):
            c = rng.choice(["write", "write", "write", "flush", "drain", "refused", "sync"])
            if c == "refused":
                before = len(out)
                refused(ctx, s, rng.choice(REFUSED[:-1]), text)
            elif c == "drain":
                out += take(r, rng.choice([10, 1000, 10 ** 6]))
            elif c in ("flush", "sync"):
                res = result(getattr(s, c))
                blocked += res[0] == "exc" and res[1] == ["BlockingIOError"]
                if res[0] == "exc" and res[1] != ["BlockingIOError"] and c == "flush":
                    raise Odd("flush() fails with %s" % (res,))
            else:
                n = rng.choice([1, 10, 100, 3000, 30000, 200000])
                d = (b"%06x" % rng.getrandbits(24)) * (n // 6 + 1)
                res = result(lambda: s.write(d.decode() if text else d))
                if res[0] == "ok":
                    if res[1] is None:
                        blocked += 1
                        if not raw:
                            raise Odd("write() of a buffered stream returns None")
                        res = ("ok", 0)
                    if not raw and res[1] != len(d):
                        raise Odd("write() of %d bytes returns %r" % (len(d), res[1]))
                    if res[1] < len(d):
                        ctx.count("partial_writes")
                    accepted += d[:res[1]]
                elif res[1] == ["BlockingIOError"]:
                    blocked += 1
                    if text:
                        uncertain = True  # a text stream does not tell what it has kept
                        break
                    accepted += d[:res[2]]
                    ctx.count("partial_writes")
                else:
                    raise Odd("write() fails with %s" % (res,))
                log.append("write %d -> %s" % (len(d), res))
            log.append(c)
            ctx.count("nonblocking_steps")
        if not uncertain:
            end = time.monotonic() + 20
            while True:
                out += take(r, 10 ** 7)
                res = result(s.flush)
                if res[0] == "ok":
                    break
                if res[1] != ["BlockingIOError"] or time.monotonic() > end:
                    raise Odd("flush() keeps failing: %s" % (res,))
            out += take(r, 10 ** 7)
            if out != accepted:
                k = next((i for i, (x, y) in enumerate(zip(out, accepted)) if x != y), min(len(out), len(accepted)))
                raise Odd("%d bytes accepted, %d arrive, first difference at %d" % (len(accepted), len(out), k))
            s.close()
        ctx.count("would_block", blocked)
        ctx.case(("nb-out", kind, bs, text, tuple(l.split(" ")[0] for l in log[:10]), blocked), blocked > 0)
    except (Odd, OSError, ValueError) as e:
        ctx.violation("nonblocking-write", "%s [%s]" % (e if isinstance(e, Odd) else repr(e), what), history=log, trace=traceback.format_exc())
    finally:
        take(r, 10 ** 7)
        try:
            s.close()
        except (OSError, ValueError):
            pass
        os.close(r)


def take(fd, n):
    out = b""
    while len(out) < n:
        try:
            d = os.read(fd, min(65536, n - len(out)))
        except BlockingIOError:
            break
        if not d:
            break
        out += d
    return out


# ------------------------------------------------------------------------------------------------
# devices, and broken pipes

def devices(ctx, rs):
    """Opening and using devices like the standard library does, through links lying in the scratch directory."""
    rng = ctx.rng
    dev = rng.choice(["null", "null", "zero", "full", "urandom", "ptmx"])
    link = ctx.fresh("dev")
    os.symlink("/dev/" + dev, link)
    std = rng.choice(["r", "w", "a", "r+", "w+", "a+"])
    text = rng.random() < 0.3 and dev in ("null", "full")
    mode = std if text else std + "b"
    bs = rng.choice([-1, 0, 16] if not text else [-1, 16])
    what = "/dev/%s %r buffering=%d" % (dev, mode, bs)
    ctx.crumb(what)
    frm = shim.mark()
    n0 = set(os.listdir("/proc/self/fd"))
    o = dict(thread_safe=rng.random() < 0.5, locking=rng.random() < 0.8)
    if rng.random() < 0.3:
        o["timeout"] = 0
    s = ref = None
    log = []
    try:
        ra = result(lambda: io.open(link, mode, buffering=bs))
        adv = {"r": "RN", "w": "WE", "a": "A", "r+": "RWN", "w+": "RWE", "a+": "RA"}[std] + ("T" if text else "B") if rng.random() < 0.4 else mode
        rb = result(lambda: rs.rsopen(link, adv, buffering=bs, **o))
        ctx.count("opens")
        if ra[0] == "ok":
            ref = ra[1]
        if rb[0] == "ok":
            s = rb[1]
        if ra[0] != rb[0]:
            raise Odd("opening gives %s where the standard library gives %s" % (rb, ra))
        if s is None:
            left = set(os.listdir("/proc/self/fd")) - n0
            if len(left) > 1 + (ref is not None):
                raise Odd("a failed opening leaves a descriptor")
            return
        if s.isatty() != (dev == "ptmx"):
            raise Odd("isatty() is %r" % s.isatty())
        if ref is not None and s.seekable() != ref.seekable():
            raise Odd("seekable() is %r, unlike in the standard library" % s.seekable())
        for op in (("lock_file",), ("lock_file", 0), ("unlock_file",), ("truncate", 0)):
            refused(ctx, s, op, text)
        reads = s.readable() and dev != "ptmx"
        writes = s.writable() and dev != "ptmx"
        if reads:
            d = s.read(50)
            e = {"null": b"", "zero": b"\0" * 50, "full": b"\0" * 50}.get(dev)
            if text:
                e = e.decode()
            if e is not None and d != e or len(d) != len(e if e is not None else d) or dev == "urandom" and len(d) != 50:
                raise Odd("read(50) returns %.60r" % d)
        if writes and dev != "urandom":
            res = result(lambda: (s.write("abc" if text else b"abc"), s.flush()))
            if dev == "full":
                if res[0] == "ok" or res[1] != ["OSError"]:
                    raise Odd("writing and flushing to /dev/full gives %s" % (res,))
            elif res[0] != "ok":
                raise Odd("writing fails with %s" % (res,))
        fd = s.fileno()
        res = result(s.close)
        if dev == "full" and writes and bs != 0 and res[0] == "ok":
            raise Odd("close() tells nothing although the pending data could not be written")
        if dev != "full" and res[0] != "ok":
            raise Odd("close() fails with %s" % (res,))
        try:
            os.fstat(fd)
        except OSError:
            pass
        else:
            raise Odd("the descriptor is still open after close()")
        calls_ok(ctx, fd, frm, what)
        ctx.case(("device", dev, adv, bs, tuple(sorted(o.items()))), True)
    except (Odd, OSError, ValueError) as e:
        ctx.violation("device:%s" % dev, "%s [%s]" % (e if isinstance(e, Odd) else repr(e), what), trace=traceback.format_exc())
    finally:
        for x in (s, ref):
            if x is not None:
                result(x.close)
        os.unlink(link)


def broken(ctx, rs):
    """The reader goes away: the writer is told, its descriptor gets closed all the same."""
    rng = ctx.rng
    kind = rng.choice(["pipe", "socket"])
    r, w, _ = ends(ctx, rng, kind)
    bs = rng.choice([0, 16, 100])
    closefd = rng.random() < 0.6
    s = rs.rsopen(mode=rng.choice(["wb", "AB", "WEB"]), fileno=w, buffering=bs, closefd=closefd, thread_safe=rng.random() < 0.5)
    what = "%s, buffering=%d" % (kind, bs)
    try:
        s.write(b"first")
        s.flush()
        os.close(r)
        before = rng.random() < 0.5
        res = result(lambda: (s.write(b"second"), s.flush() if before else None))
        if bs == 0 or before:
            if res[0] == "ok" or res[1] != ["BrokenPipeError"]:
                raise Odd("writing to a pipe without reader gives %s" % (res,))
        res = result(s.close)
        if bs and (res[0] == "ok" or res[1] != ["BrokenPipeError"]):
            raise Odd("close() with pending data for a pipe without reader gives %s" % (res,))
        if not s.closed:
            raise Odd("the stream is not closed after a failed close()")
        try:
            os.fstat(w)
            alive = True
        except OSError:
            alive = False
        if alive == closefd:
            raise Odd("the descriptor is %s after close()" % ("open" if alive else "closed"))
        ctx.count("broken")
        ctx.case(("broken", kind, bs, closefd, before), True)
    except Odd as e:
        ctx.violation("broken", "%s [%s]" % (e, what))
    finally:
        result(s.close)
        if not closefd:
            os.close(w)


def run(ctx, i=0):
    rs = vf.import_rsfile()
    shim.start(ctx.dir)
    n = 0
    while ctx.more(n, 60, 10 ** 6):
        if shim.mark() > 20000:
            shim.reset()
        k = n % 10
        if k in (0, 1, 5):
            reading(ctx, rs)
        elif k in (2, 3):
            writing(ctx, rs)
        elif k == 4:
            duplex(ctx, rs)
        elif k in (6, 7):
            nb_reading(ctx, rs)
            nb_writing(ctx, rs)
        elif k == 8:
            for _ in range(6):
                devices(ctx, rs)
        else:
            nb_writing(ctx, rs)
            broken(ctx, rs)
        n += 1
