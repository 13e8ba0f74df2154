"""Independent observers of POSIX record locks: helper processes that never run rsfile code."""
import ctypes, errno, fcntl, os, signal, socket, struct, threading, pickle

INF = 1 << 63
FL = "hhqqi4x"


def cut(s, length):
    """(start, rsfile length) -> half-open interval."""
    return (s, INF if not length else s + length)


def overlap(a, b):
    return max(a[0], b[0]) < min(a[1], b[1])


def merge(ivs):
    out = []
    for s, e in sorted(ivs):
        if s >= e:
            continue
        if out and s <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], e))
        else:
            out.append((s, e))
    return out


def subtract(ivs, holes):
    out = []
    for s, e in merge(ivs):
        cur = s
        for hs, he in merge(holes):
            if he <= cur or hs >= e:
                continue
            if hs > cur:
                out.append((cur, hs))
            cur = max(cur, he)
        if cur < e:
            out.append((cur, e))
    return merge(out)


def _getlk(fd, typ, s, e):
    l_len = 0 if e >= INF else e - s
    r = fcntl.fcntl(fd, fcntl.F_GETLK, struct.pack(FL, typ, 0, s, l_len, 0))
    t, wh, st, ln, pid = struct.unpack(FL, r)
    if t == fcntl.F_UNLCK:
        return None
    return (st, INF if ln == 0 else st + ln, t, pid)


def scan_fd(fd, typ, lo=0, hi=INF):
    """Intervals of [lo, hi) on which a lock of kind typ would be refused, and the owners' pids."""
    out, pids, todo = [], set(), [(lo, hi)]
    while todo:
        a, b = todo.pop()
        if a >= b:
            continue
        r = _getlk(fd, typ, a, b)
        if r is None:
            continue
        s, e, t, pid = r
        s, e = max(s, a), min(e, b)
        out.append((s, e))
        pids.add(pid)
        todo.append((a, s))
        todo.append((e, b))
    return merge(out), pids


def _serve(sock):
    fds = {}
    while True:
        try:
            head = sock.recv(4, socket.MSG_WAITALL)
            if len(head) < 4:
                break
            n = struct.unpack("<I", head)[0]
            op, args = pickle.loads(sock.recv(n, socket.MSG_WAITALL))
        except (EOFError, OSError):
            break
        try:
            if op == "scan":  # (path, lo, hi)
                path, lo, hi = args
                fd = os.open(path, os.O_RDWR)
                try:
                    anyl, p1 = scan_fd(fd, fcntl.F_WRLCK, lo, hi)
                    exl, p2 = scan_fd(fd, fcntl.F_RDLCK, lo, hi)
                finally:
                    os.close(fd)
                res = (anyl, exl, sorted(p1 | p2))
            elif op == "open":
                fd = os.open(args[0], os.O_RDWR)
                fds[fd] = args[0]
                res = fd
            elif op == "create":  # (path, data)
                fd = os.open(args[0], os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o666)
                os.write(fd, args[1])
                fds[fd] = args[0]
                res = fd
            elif op == "setlk":  # (fd, type, s, e)
                fd, typ, s, e = args
                fcntl.fcntl(fd, fcntl.F_SETLK, struct.pack(FL, typ, 0, s, 0 if e >= INF else e - s, 0))
                res = True
            elif op == "close":
                os.close(args[0])
                fds.pop(args[0], None)
                res = True
            elif op == "closeall":
                for f in list(fds):
                    os.close(f)
                fds.clear()
                res = True
            elif op == "read":
                with open(args[0], "rb") as f:
                    res = f.read()
            elif op == "pid":
                res = os.getpid()
            else:
                raise ValueError(op)
            out = (True, res)
        except OSError as e:
            out = (False, e.errno)
        data = pickle.dumps(out)
        sock.sendall(struct.pack("<I", len(data)) + data)
    os._exit(0)


class Helper:
    """A forked process answering lock questions. Create before any thread is started."""

    def __init__(self):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                try:
                    from lib import shim
                    shim.lib().vs_prefix(b"")
                    for fd in range(1024):
                        shim.lib().vs_track(fd, 0)
                except Exception:
                    pass
                _serve(b)
            finally:
                os._exit(0)
        b.close()
        self.sock = a
        self.mutex = threading.Lock()

    def call(self, op, *args):
        data = pickle.dumps((op, args))
        with self.mutex:
            self.sock.sendall(struct.pack("<I", len(data)) + data)
            n = struct.unpack("<I", self.sock.recv(4, socket.MSG_WAITALL))[0]
            ok, res = pickle.loads(self.sock.recv(n, socket.MSG_WAITALL))
        if not ok:
            raise OSError(res, os.strerror(res))
        return res

    def scan(self, path, lo=0, hi=INF):
        return self.call("scan", path, lo, hi)

    def setlk(self, fd, typ, s, e):
        try:
            return self.call("setlk", fd, typ, s, e)
        except OSError as e_:
            if e_.errno in (errno.EACCES, errno.EAGAIN):
                return False
            raise

    def stop(self):
        try:
            self.sock.close()
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
