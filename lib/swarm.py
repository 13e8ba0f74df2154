"""Worker processes and threads taking locks at random; client-side event log of what each of them definitely held."""
import gc, os, random, signal, struct, sys, threading, time, traceback
from . import vf, locks
from .locks import INF, cut

EV = struct.Struct("<BBHIqQQ")  # kind, shared, file, hold id, t_ns, start, end
GRANT, RELEASE, DONE = 1, 2, 3


class Log:
    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

    def put(self, kind, shared, fi, hold, t, iv):
        os.write(self.fd, EV.pack(kind, shared, fi, hold, t, iv[0], iv[1]))


def read_log(path):
    data = open(path, "rb").read()
    n = len(data) // EV.size
    return [EV.unpack_from(data, i * EV.size) for i in range(n)]


def now():
    return time.monotonic_ns()


def conflicts(holds):
    """holds: list of (start_ns, end_ns, file, shared, s, e, who). Pairs that were held at once although they conflict."""
    out = []
    byfile = {}
    for h in holds:
        byfile.setdefault(h[2], []).append(h)
    pairs = 0
    for hs in byfile.values():
        hs.sort()
        active = []
        for h in hs:
            active = [a for a in active if a[1] > h[0]]
            for a in active:
                pairs += 1
                if not (a[3] and h[3]) and max(a[4], h[4]) < min(a[5], h[5]):
                    out.append((a, h))
            active.append(h)
    return out, pairs
