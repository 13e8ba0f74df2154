"""C02: the kernel lock table always equals the union of the locks owned by the live streams."""
import gc, os
from lib import vf, locks, lockwork
from lib.lockwork import Bench, rand_range
from lib.locks import INF, cut

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: kernel lock table read by another process after every step of random histories, against an ownership model"
NOTE = "Held on the histories explored; one thread drives the streams, ranges and forms are sampled, not enumerated."
RULE = ("random histories (20-70 steps) of opening (every wrapping form), locking, failing to lock, unlocking, closing and collecting "
        "up to 14 streams on 1-3 files plus a foreign process holding locks; after every step another process reads the lock table. "
        "A state (multiset of owned ranges per stream and file) is non-trivial when at least two streams are open and one lock is held.")
BUDGET = {"quick": 11, "thorough": 240}
TIMEOUT = {"quick": 100, "thorough": 900}
MIN = {"table_scans": 1500, "nonempty_scans": 800, "grants": 300, "closes": 200}


def shards(tier, seed):
    return [("hist%d" % i, {}) for i in range(8)]


def history(ctx, rs, prober, foreign, steps, nfiles, script=None):
    b = Bench(ctx, rs, prober, foreign, nfiles=nfiles)
    bad = [0]

    def adopt(what, expect, out, val):  # results are the business of C03; here only the kernel's view counts
        bad[0] += 1
    b.on_bad = adopt
    rng = ctx.rng
    maxh = rng.choice([3, 4, 6, 14])
    gone = rng.randrange(2, steps) if rng.random() < 0.3 else -1
    for step in range(steps):
        if step == gone:
            b.unlink(0)
        ctx.crumb("history step %d: %s" % (step, b.log[-1:] or ""))
        r = rng.random()
        hs = b.handles
        if not hs or (r < 0.2 and len(hs) < maxh):
            b.open(closefd=rng.random() < 0.8)
        elif r < 0.55:
            b.lock(rng.choice(hs), timeout=rng.choice([0, 0, None]))
        elif r < 0.75:
            cand = [(h, k) for h in hs for k in h.locks]
            if cand:
                h, k = rng.choice(cand)
                b.unlock(h, k[1], None if k[2] == INF else k[2] - k[1])
        elif r < 0.80:  # bogus release: must not release anything
            h = rng.choice(hs)
            other = rng.choice(hs)
            if other.locks and rng.random() < 0.6:
                k = rng.choice(other.locks)
                s, ln = k[1], (None if k[2] == INF else k[2] - k[1])
                if rng.random() < 0.5:
                    ln = (ln or 5) + 1
            else:
                s, ln = rand_range(rng)
            if not any(c[1:] == cut(s, ln) for c in h.locks):
                b.unlock(h, s, ln)
        elif r < 0.92:
            b.close(rng.choice(hs))
        elif r < 0.96:
            fi = rng.randrange(nfiles)
            s, ln = rand_range(rng)
            b.foreign_lock(fi, rng.random() < 0.5, cut(s, ln))
        else:
            b.foreign_unlock(rng.randrange(nfiles))
        ctx.case(b.state_key(), len(b.handles) >= 2 and any(h.locks for h in b.handles), sample=b.log[-12:])
        if not b.check_kernel() or bad[0] > 3:
            break
    for h in list(b.handles):
        b.close(h)
        if not b.check_kernel():
            break
    b.done()
    for fd in getattr(b, "keep", ()):
        try:
            os.close(fd)
        except OSError:
            pass


def run(ctx):
    prober, foreign = locks.Helper(), locks.Helper()
    rs = vf.import_rsfile()
    n = 0
    while ctx.more(n, 12, 100000):
        history(ctx, rs, prober, foreign, ctx.rng.choice([20, 40, 70]), ctx.rng.choice([1, 1, 1, 2, 3]))
        n += 1
    ctx.count("histories", n)
    prober.stop()
    foreign.stop()
