"""Common machinery of the checks: shards, watchdogs, evidence, verdicts, scratch space."""
import hashlib, importlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MAXJOBS = int(os.environ.get("VERIF_JOBS", "8"))


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def build_shim(where):
    """Compiles the LD_PRELOAD monitor into the scratch directory of this run."""
    out = os.path.join(where, "vshim.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out, os.path.join(VERIF, "shim", "vshim.c"), "-ldl"],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return out


def import_rsfile():
    """Imports rsfile from the repository's working tree, never from stale bytecode."""
    if "rsfile" in sys.modules:
        return sys.modules["rsfile"]
    import _pyio, io, fcntl, multiprocessing, ctypes, contextlib  # noqa: their bytecode may be cached
    import multiprocessing.synchronize  # noqa
    old = sys.pycache_prefix
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.environ.get("VF_SCRATCH", "/nonexistent"), "nopyc")
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    try:
        import rsfile, rsfile.rsfile_utilities, rsfile.rsfile_streams  # noqa
    finally:
        sys.pycache_prefix = old
    assert os.path.abspath(rsfile.__file__).startswith(os.path.abspath(SRC) + os.sep), rsfile.__file__
    return rsfile


class Inconclusive(Exception):
    pass


class StopShard(Exception):
    """Raised to end a shard early once it has reported enough violations."""


def from_repo(tb):
    """True when a frame of rsfile lies on the traceback."""
    root = os.path.abspath(SRC) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class Ctx:
    """State of one shard."""

    def __init__(self, pid, shard, params, scratch, budget):
        self.pid, self.shard, self.params, self.dir = pid, shard, params, scratch
        self.tier, self.seed = tier(), seed()
        self.rng = random.Random("%s/%s/%s" % (pid, self.seed, shard))
        self.counters, self.keys, self.samples, self.violations, self.known = {}, set(), [], [], []
        self.evaluations = 0
        self.t0 = time.monotonic()
        self.budget = budget
        self._n = 0
        self.crumbfile = os.environ.get("VF_CRUMB")
        self.maxviol = 5

    # --- progress
    def elapsed(self):
        return time.monotonic() - self.t0

    def more(self, done, least, most):
        """Loop condition: at least `least` cases, at most `most`, between them until the time budget is used."""
        if done < least:
            return True
        return done < most and self.elapsed() < self.budget

    def crumb(self, text):
        if self.crumbfile:
            with open(self.crumbfile, "w") as f:
                f.write(text)

    def fresh(self, stem="f"):
        self._n += 1
        return os.path.join(self.dir, "%s%d" % (stem, self._n))

    # --- what was observed
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
            if h not in self.keys:
                self.keys.add(h)
                if sample is not None and len(self.samples) < 3:
                    self.samples.append(sample)

    def violation(self, mech, message, **data):
        """mech: short stable name of the mechanism (used to match known findings and to deduplicate)."""
        v = dict(mech=mech, message=message, shard=self.shard, seed=self.seed, tier=self.tier, data=data)
        if mech in self.known_mechs():
            if mech not in self.known:
                self.known.append(mech)
            return False
        if sum(1 for x in self.violations if x["mech"] == mech) < 3:
            self.violations.append(v)
        if len(self.violations) >= self.maxviol:
            raise StopShard()
        return True

    def known_mechs(self):
        if not hasattr(self, "_km"):
            self._km = {m for (p, m, _) in known_findings() if p == self.pid}
        return self._km


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == "open:" and w[1].startswith("property=") and w[2].startswith("mech="):
                out.append((w[1][9:], w[2][5:], w[3].strip() if len(w) > 3 else ""))
    return out


def shard_main(pid, shard, outfile):
    """Runs in the shard process."""
    import faulthandler
    faulthandler.enable()
    params = json.loads(os.environ["VF_PARAMS"])
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, shard, params, os.environ["VF_DIR"], float(os.environ["VF_BUDGET"]))
    os.chdir(ctx.dir)
    os.umask(0o022)
    status = "ok"
    err = None
    try:
        try:
            getattr(mod, params.get("fn", "run"))(ctx, **{k: v for k, v in params.items() if k not in ("fn", "timeout", "budget", "pre")})
        except StopShard:
            pass
        except Inconclusive as e:
            status, err = "inconclusive", str(e)
        except BaseException as e:
            text = traceback.format_exc()
            if from_repo(e.__traceback__) and not isinstance(e, (KeyboardInterrupt, MemoryError)):
                try:
                    ctx.violation("unexpected-exception:%s" % type(e).__name__,
                                  "unexpected %s escaped from rsfile during the workload" % type(e).__name__, traceback=text)
                except StopShard:
                    pass
            else:
                status, err = "error", text
    finally:
        res = dict(status=status, err=err, counters=ctx.counters, keys=sorted(ctx.keys), samples=ctx.samples,
                   violations=ctx.violations, known=ctx.known, evaluations=ctx.evaluations, wall=ctx.elapsed())
        tmp = outfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=repr)
        os.rename(tmp, outfile)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)  # leftover (daemon) threads must not delay the end


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def run_check(pid):
    t0 = time.monotonic()
    mod = importlib.import_module("checks." + pid.lower())
    shards = mod.shards(tier(), seed())
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    os.chmod(work, 0o755)
    results, problems = {}, []
    try:
        shim = build_shim(work)
        only = os.environ.get("VERIF_SHARD")
        todo = [(n, p, 0) for (n, p) in shards if not only or only in n]
        running = []
        hang_is_violation = getattr(mod, "HANG", True)
        while todo or running:
            while todo and len(running) < MAXJOBS:
                name, params, attempt = todo.pop(0)
                d = os.path.join(work, "%s.%d" % (name, attempt))
                os.mkdir(d, 0o755)
                scratch = os.path.join(d, "scratch")
                os.mkdir(scratch, 0o755)
                env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VF_"))}
                env.update(VF_PARAMS=json.dumps(params), VF_DIR=scratch, VF_SCRATCH=work, VF_CRUMB=os.path.join(d, "crumb"),
                           VF_SHIM=shim, VF_BUDGET=str(params.get("budget", getattr(mod, "BUDGET", {}).get(tier(), 10))),
                           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                           LD_PRELOAD=shim, TMPDIR=scratch, PYTHONPATH=VERIF, PYTHONUNBUFFERED="1")
                timeout = params.get("timeout", getattr(mod, "TIMEOUT", {}).get(tier(), 120))
                with open(os.path.join(d, "stderr"), "wb") as errf, open(os.path.join(d, "stdout"), "wb") as outf:
                    p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "run.py"), "--shard", pid, name, os.path.join(d, "result")],
                                         env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=outf, stderr=errf, start_new_session=True)
                running.append((p, name, params, attempt, d, time.monotonic() + timeout))
            time.sleep(0.01)
            still = []
            for item in running:
                p, name, params, attempt, d, dead = item
                rc = p.poll()
                if rc is None and time.monotonic() < dead:
                    still.append(item)
                    continue
                timed_out = rc is None
                _kill(p)
                rf = os.path.join(d, "result")
                crumb = open(os.path.join(d, "crumb")).read() if os.path.exists(os.path.join(d, "crumb")) else ""
                if os.path.exists(rf):
                    results[name] = json.load(open(rf))
                    if results[name]["status"] == "error" and attempt == 0:
                        # an error of the harness: one more try before giving up
                        todo.append((name, params, 1))
                elif attempt == 0:
                    todo.append((name, params, 1))  # confirm before judging
                else:
                    why = "no progress within the watchdog" if timed_out else "process died with status %s" % rc
                    tail = open(os.path.join(d, "stderr"), errors="replace").read()[-1500:]
                    v = dict(mech="hang" if timed_out else "crash", message="%s twice (last step: %s)" % (why, crumb), shard=name,
                             seed=seed(), tier=tier(), data=dict(stderr=tail))
                    if hang_is_violation:
                        results[name] = dict(status="ok", err=None, counters={}, keys=[], samples=[], violations=[v], known=[],
                                             evaluations=0, wall=0)
                    else:
                        problems.append("%s: %s (%s)" % (name, why, crumb))
            running = still
    finally:
        shutil.rmtree(work, ignore_errors=True)

    counters, keys, samples, violations, known, evaluations = {}, set(), [], [], [], 0
    for name, r in sorted(results.items()):
        if r["status"] != "ok":
            problems.append("%s: %s" % (name, r["err"]))
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        keys.update(r["keys"])
        samples += r["samples"][:1]
        violations += r["violations"]
        known += [k for k in r["known"] if k not in known]
        evaluations += r["evaluations"]
    if not violations:
        for k, least in getattr(mod, "MIN", {}).items():
            if counters.get(k, 0) < least and not only:
                problems.append("monitor observed too little: %s=%d < %d" % (k, counters.get(k, 0), least))
        if not keys:
            problems.append("no non-trivial case observed")
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=pid, tier=tier(), seed=seed(), level=mod.LEVEL,
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples[:6] or ["(none)"], observed=counters, shards=len(results)),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    if problems:
        ev["coverage"]["problems"] = [p[-800:] for p in problems]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for (p, m, text) in known_findings():
        if p == pid and m in known:
            print("KNOWN-FINDING: property=%s [%s] %s" % (pid, m, text))
    rp = os.path.join(EVID, "replay-%s.json" % pid)
    if os.path.exists(rp):
        os.unlink(rp)
    if violations:
        with open(rp, "w") as f:
            json.dump(violations, f, indent=1, default=repr)
        seen = set()
        for v in violations:
            if v["mech"] not in seen:
                seen.add(v["mech"])
                print("  %s [%s]: %s" % (v["shard"], v["mech"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        print("INCONCLUSIVE property=%s" % pid)
        for p in problems[:5]:
            print("  " + p[-2500:])
        return 2
    print("OK property=%s evaluations=%d distinct=%d %s wall=%.1fs" % (
        pid, evaluations, len(keys), " ".join("%s=%s" % kv for kv in sorted(counters.items())), time.monotonic() - t0))
    return 0
