"""Recording of concurrent histories and search for an equivalent sequential order (Wing & Gong, with memoization)."""
import contextlib, itertools, os, random, sys, threading, time

from lib import vf


class Recorder:
    """Runs lists of operations in threads that start together; each operation is (name, callable)."""

    def __init__(self):
        self.clock = itertools.count()
        self.events = []

    def run(self, programs, limit=30):
        barrier = threading.Barrier(len(programs))
        out = [[] for _ in programs]

        def body(k):
            try:
                barrier.wait(limit)
            except threading.BrokenBarrierError:
                return
            for op in programs[k]:
                inv = next(self.clock)
                try:
                    res = ("ok", op[1]())
                except Exception as e:
                    res = ("exc", type(e).__name__, str(e))
                ret = next(self.clock)
                out[k].append((op[0], inv, ret, res))
        ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(programs))]
        for t in ths:
            t.start()
        end = time.monotonic() + limit
        for t in ths:
            t.join(max(0.01, end - time.monotonic()))
        self.stuck = [k for k, t in enumerate(ths) if t.is_alive()]
        self.calls = [(k,) + c for k, l in enumerate(out) for c in l]
        return self.calls


def linearizable(calls, init, step):
    """calls: (thread, op, inv, ret, result); step(state, op, result) -> new state or None. Returns a witness order or None."""
    n = len(calls)
    seen = set()

    def go(done, state, order):
        if len(order) == n:
            return order
        if (done, state) in seen:
            return None
        # candidates: calls whose invocation precedes every response of the calls not done
        first = min(calls[i][3] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or calls[i][2] > first:
                continue
            for new in step(state, calls[i][1], calls[i][4]):
                r = go(done | 1 << i, new, order + [i])
                if r is not None:
                    return r
        seen.add((done, state))
        return None
    return go(0, init, [])


def overlaps(calls):
    """Number of pairs of calls of different threads that overlapped in time."""
    return sum(1 for a, b in itertools.combinations(calls, 2) if a[0] != b[0] and a[2] < b[3] and b[2] < a[3])


def shape(calls):
    """The interleaving: order of invocations and responses."""
    ev = sorted([(c[2], "i", c[0]) for c in calls] + [(c[3], "r", c[0]) for c in calls])
    return tuple((k, t) for (_, k, t) in ev)


class Jitter:
    """Random pauses at traced source lines of the given modules, to diversify the interleavings."""

    def __init__(self, seed, files, prob, max_us):
        self.rng, self.files, self.prob, self.max = random.Random(seed), files, prob, max_us
        self.hits = 0

    def trace(self, frame, event, arg):
        if not any(f in frame.f_code.co_filename for f in self.files):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.rng.random() < self.prob:
            self.hits += 1
            time.sleep(0 if self.rng.random() < 0.5 else self.rng.random() * self.max / 1e6)
        return self.local

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)


@contextlib.contextmanager
def jitter(ctx, rng, share=0.4, max_us=200):
    """With probability `share`, the threads started inside make random pauses between the lines of the package, whatever they are."""
    if rng.random() >= share:
        yield None
        return
    with Jitter(rng.random(), (os.path.join(vf.SRC, "rsfile") + os.sep,), rng.choice([0.01, 0.03, 0.1]), max_us) as j:
        yield j
    ctx.count("line_pauses", j.hits)
