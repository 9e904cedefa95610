"""Runner of monitored workloads: deterministic cases, forked workers, verdicts, evidence and replay files."""
import argparse, errno, importlib, json, multiprocessing as mp, os, pickle, random, shutil, signal, sys, time, traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SCRATCH = os.environ.get("VT_SCRATCH", "/tmp")
CPU_LIMIT = 150        # CPU seconds one case may take before it counts as not terminating (cases take well under 3)
MAX_VIOLATIONS = 5


class Violation(Exception):
    def __init__(self, msg, **detail):
        Exception.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    """The harness (not the code under test) could not do its work."""


class NoTermination(BaseException):
    pass


class Ctx(object):
    """What a case gets: a seeded generator, a scratch directory, and the recorder of observations."""

    def __init__(self, prop, tier, seed, i, known):
        self.prop, self.tier, self.seed, self.i = prop, tier, seed, i
        self.rng = random.Random("%s/%s/%d/%d" % (prop, tier, seed, i))
        self.counts, self.keys, self.samples, self.known_hits = {}, set(), [], {}
        self.artifacts = {}
        self._known = known
        self._dir = None
        self.soft = []

    @property
    def dir(self):
        if self._dir is None:
            self._dir = os.path.join(SCRATCH, "work", "c%d" % self.i)
            os.makedirs(self._dir)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        if self._dir and self._dir.startswith(SCRATCH):
            for root, dirs, files in os.walk(self._dir):
                for d in dirs:
                    try:
                        os.chmod(os.path.join(root, d), 0o755)
                    except OSError:
                        pass
            shutil.rmtree(self._dir, ignore_errors=True)
        self._dir = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *key):
        """A distinct non-trivial observation."""
        self.keys.add(hash(key) if not isinstance(key, int) else key)

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def keep(self, name, text):
        """Witness material for the replay file."""
        self.artifacts[name] = text if isinstance(text, str) else repr(text)

    def fail(self, msg, mech=None, **detail):
        """Report a broken property. mech names a mechanism; listed mechanisms are known findings."""
        if mech is not None and mech in self._known:
            self.known_hits[mech] = self.known_hits.get(mech, 0) + 1
            return
        raise Violation(msg, **detail)

    def check(self, cond, msg, mech=None, **detail):
        self.count("monitor checks")
        if not cond:
            self.fail(msg, mech, **detail)


def load_known(prop):
    """{mechanism: entry} of the known findings of a property; entries starting 'fixed' suppress nothing."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["mechanism"]: e for e in data.get("findings", []) if e["property"] == prop}


def load_trappy():
    import numpy, pandas  # noqa: F401
    warnings.simplefilter("ignore")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import trappy
    if os.path.realpath(os.path.dirname(trappy.__file__)) != os.path.realpath(os.path.join(REPO, "trappy")):
        raise Inconclusive("trappy imported from %s, not from %s" % (trappy.__file__, REPO))
    return trappy


def _alarm(signum, frame):
    raise NoTermination()


def run_case(mod, prop, tier, seed, i, known):
    ctx = Ctx(prop, tier, seed, i, known)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    res = dict(i=i, violation=None, error=None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.case(ctx)
    except Violation as e:
        res["violation"] = dict(msg=e.msg, detail={k: _txt(v) for k, v in e.detail.items()})
    except Inconclusive as e:
        res["error"] = "inconclusive: %s" % e
    except NoTermination:
        res["violation"] = dict(msg="did not finish within %d CPU seconds" % CPU_LIMIT, detail={})
    except MemoryError:
        res["error"] = "out of memory"
    except Exception as e:
        tb = traceback.format_exc()
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE):
            res["error"] = tb
        else:
            res["violation"] = dict(msg="unexpected %s: %s" % (type(e).__name__, str(e)[:300]), detail=dict(traceback=tb))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            os.chdir(os.path.join(SCRATCH, "work"))
        except OSError:
            pass
        ctx.cleanup()
    if res["violation"]:
        res["violation"]["artifacts"] = ctx.artifacts
    res.update(counts=ctx.counts, keys=ctx.keys, samples=ctx.samples, known=ctx.known_hits)
    return res


def _txt(v):
    if isinstance(v, str):
        return v
    try:
        return json.loads(json.dumps(v))
    except (TypeError, ValueError):
        return repr(v)[:4000]


class Acc(object):
    def __init__(self):
        self.n = 0
        self.counts, self.keys, self.samples, self.known = {}, set(), [], {}
        self.violations, self.errors = [], []

    def add(self, r):
        self.n += 1
        for k, v in r["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.keys |= r["keys"]
        if len(self.samples) < 3:
            self.samples += r["samples"]
        for k, v in r["known"].items():
            self.known[k] = self.known.get(k, 0) + v
        if r["violation"]:
            self.violations.append((r["i"], r["violation"]))
        if r["error"]:
            self.errors.append((r["i"], r["error"]))

    def merge(self, o):
        self.n += o.n
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.keys |= o.keys
        self.samples += o.samples
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.violations += o.violations
        self.errors += o.errors


def worker(w, n, mod, prop, tier, seed, ncases, known, stop, out):
    acc = Acc()
    if not os.environ.get("VT_DEBUG"):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        for i in range(w, ncases, n):
            if stop.value >= MAX_VIOLATIONS:
                break
            r = run_case(mod, prop, tier, seed, i, known)
            acc.add(r)
            if r["violation"]:
                with stop.get_lock():
                    stop.value += 1
    except BaseException:
        acc.errors.append((-1, traceback.format_exc()))
    with open(out + ".tmp", "wb") as f:
        pickle.dump(acc, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        trappy = load_trappy()
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s trappy cannot be imported" % prop)
        return 3
    trappy.ftrace.GenericFTrace.disable_cache = True
    mod = importlib.import_module("checks." + prop)
    known = load_known(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    if a.replay or a.case is not None:
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            tier, seed, i = d["tier"], d["seed"], d["case"]
        else:
            seed, i = a.seed, a.case
        r = run_case(mod, prop, tier, seed, i, known)
        print(json.dumps({k: v for k, v in r.items() if k != "keys"}, indent=1, default=repr))
        if r["violation"]:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay or "-"))
            return 1
        return 3 if r["error"] else 0
    ncases = a.cases or mod.CASES[tier]
    n = max(1, min(a.jobs, ncases))
    stop = mp.Value("i", 0)
    outs, procs = [], []
    for w in range(n):
        out = os.path.join(SCRATCH, "out%d" % w)
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            os.setsid()
            worker(w, n, mod, prop, tier, a.seed, ncases, known, stop, out)
        procs.append(pid)
    limit = 780 if tier == "quick" else 6 * 3600
    left = set(procs)
    killed = False
    while left:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            left.discard(pid)
            continue
        if time.time() - t0 > limit:
            killed = True
            for q in left:
                try:
                    os.killpg(q, signal.SIGKILL)
                except OSError:
                    pass
        time.sleep(0.02)
    acc = Acc()
    for out in outs:
        if os.path.exists(out):
            with open(out, "rb") as f:
                acc.merge(pickle.load(f))
        else:
            acc.errors.append((-1, "a worker ended without a result" + (" (wall clock guard)" if killed else "")))
    return report(mod, prop, tier, a.seed, ncases, acc, known, time.time() - t0)


def report(mod, prop, tier, seed, ncases, acc, known, wall):
    rdir = os.path.join(VERIF, "replays")
    acc.violations.sort(key=lambda v: v[0])
    paths = []
    for i, v in acc.violations[:MAX_VIOLATIONS]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-s%d-c%d.json" % (prop, tier, seed, i))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, case=i, **v), f, indent=1, default=repr)
        paths.append(path)
        print("case %d: %s" % (i, v["msg"]))
        for k, t in list(v["detail"].items())[:6]:
            print("   %s: %s" % (k, str(t)[-700:]))
    missing = [c for c in getattr(mod, "REQUIRED", []) if not acc.counts.get(c)]
    cov = dict(evaluations=acc.n, distinct_nontrivial=len(acc.keys), rule=mod.RULE,
               samples=acc.samples[:3] or ["none"], observed=dict(sorted(acc.counts.items())),
               known_findings_observed=acc.known)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(acc.violations))
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for m, e in known.items():
        print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (prop, e["what"], acc.known.get(m, 0)))
    print("%s %s seed=%d: %d cases, %d distinct, %d violations, %.1fs; %s" % (
        prop, tier, seed, acc.n, len(acc.keys), len(acc.violations), wall,
        ", ".join("%s=%d" % kv for kv in sorted(acc.counts.items()))))
    if acc.violations:
        for path in paths[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if acc.errors:
        print("INCONCLUSIVE property=%s %s" % (prop, acc.errors[0][1]))
        return 3
    if missing or acc.n != ncases or not acc.keys:
        print("INCONCLUSIVE property=%s never observed: %s; cases %d of %d" % (prop, missing, acc.n, ncases))
        return 3
    return 0
