"""A process of its own in which workloads of the checks run, in an environment that the caller chose.

argv: the job, a JSON file {listing, imports, collecting, switching, seed, cases: [[check, seed, i]], worlds: [...], out}."""
import gc, importlib, json, os, pickle, random, sys, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def arrange(job):
    """What of the environment is arranged within the process, before the package is imported."""
    rng = random.Random(job["seed"])
    if job.get("listing"):
        listdir, scandir, walk = os.listdir, os.scandir, os.walk

        def order(names):
            names = sorted(names)
            if job["listing"] == "reversed":
                names.reverse()
            else:
                rng.shuffle(names)
            return names
        os.listdir = lambda *a: order(listdir(*a))

        def ordered_walk(top, *a, **k):
            for r, d, f in walk(top, *a, **k):
                d[:] = order(d)
                yield r, d, order(f)
        os.walk = ordered_walk
    if job.get("collecting") == "never":
        gc.disable()
    elif job.get("collecting") == "often":
        gc.set_threshold(60, 2, 2)
    if job.get("switching"):
        sys.setswitchinterval(job["switching"])
    for m in job.get("imports") or []:
        importlib.import_module(m)


def results(seed, path):
    """Results of analyses in a form to compare, {name: value}; and what they were given."""
    import trappy
    from checks import C28
    from vlib import cachework as cw, core, registry
    from vlib.frames import trace_fingerprint
    C28.IDENTITY = False
    out, given = {}, {}
    with registry.preserved():
        ctx = core.Ctx("C33", "quick", seed, 0, {})
        ctx._dir = path
        w = C28.World(ctx)
        ana = [ctx.rng.choice(C28.KINDS)(w) for _ in range(12)]
        for i, d in enumerate(w.frames):
            given["table %d" % i] = C28.canon(d)
        for i, t in enumerate(w.numbers):
            given["numbers %d" % i] = trace_fingerprint(t)
        given["analyses"] = [n for n, _ in ana]
        for k, v in w.args.items():
            given["argument " + k] = C28.canon(v)
        for i, t in enumerate(w.traces):
            out["trace %d" % i] = trace_fingerprint(t)
        for k, (name, f) in enumerate(ana):
            out["%d %s" % (k, name)] = C28.attempt(f)
        for k in range(6):
            out["thermal %d" % k] = C28.attempt(C28.thermal_plots(w)[1])
    more(random.Random(seed), path, out, given)
    rng = random.Random(seed)
    for k in range(3):
        html = rng.random() < .3
        text, kw = cw.text(rng, html=html), cw.args(rng)
        given["parse %d" % k] = (text, repr(kw))
        d = os.path.join(path, "parse%d" % k)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "trace." + ("html" if html else "txt"))
        if not os.path.exists(p):
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
        # without cache, and with what cache there is
        for on in (False, True, True):
            try:
                with cw.cached(on):
                    r = ("gives", trace_fingerprint((trappy.SysTrace if html else trappy.FTrace)(p, **kw)))
            except Exception as e:
                r = ("fails", type(e).__name__, str(e).replace(path, ""))
                if "unique words" in r[2]:
                    r = r[:2]       # says the first pair it finds
            out.setdefault("parse %d" % k, r)
            out["parse %d%s" % (k, " with cache" if on else "")] = r
    return out, given


NAMES = ["big", "LITTLE", "gpu", "cpu10", "cpu9", "a", "b", "x-1", "0f", "f", "1", "01", "10", "0a", "A", "00000000,0000000f", "0000000f", "z"]


def more(rng, path, out, given):
    """Nodes, pivots, masks, parameters and benchmarks that have names."""
    import numpy as np, pandas as pd, trappy
    from checks import C28
    from trappy.plotter import AttrConf
    from trappy.plotter.Constraint import ConstraintManager
    from trappy.stats.Aggregator import MultiTriggerAggregator
    from trappy.stats.Topology import Topology
    from trappy.stats.Trigger import Trigger
    from trappy.wa import SysfsExtractor, get_results
    nodes = rng.sample(NAMES, rng.choice([2, 5, 9]))
    k = rng.randint(1, len(nodes))
    clusters = [nodes[:k], nodes[k:]] if nodes[k:] else [nodes]
    topo = Topology(clusters=clusters)
    t = trappy.BareTrace(name="named")
    rows = [dict(cpu=rng.choice(nodes), val=rng.randrange(4), mask=rng.choice(NAMES)) for _ in range(rng.choice([3, 12, 30]))]
    df = pd.DataFrame({c: [r[c] for r in rows] for c in ("cpu", "val", "mask")}, index=pd.Index([.25 * i for i in range(len(rows))], name="Time"))
    t.add_parsed_event("alpha", df, pivot="cpu")
    given["named table"] = C28.canon(df)
    given["named nodes"] = repr(clusters)
    out["named nodes"] = (C28.canon(topo.flatten()), C28.canon(topo.get_level("cpu")), C28.canon(topo.get_level("all")), [topo.get_index("cpu", [n]) for n in nodes])
    agg = MultiTriggerAggregator([Trigger(t, t.alpha, {}, 1, "cpu"), Trigger(t, t.alpha, {"val": [0, 1]}, "val", "cpu")], topo, lambda s: s.sum())
    for level in ("cpu", "cluster", "all"):
        out["named aggregates, " + level] = C28.attempt(lambda: agg.aggregate(level=level))
    for permute in (False, True):
        def pivots():
            cm = ConstraintManager(t, ["val"], [t.alpha], "mask", {} if permute else {"mask": NAMES[3:]}, zip_constraints=not permute)
            p, n = cm.generate_pivots(permute)
            return list(p), n, cm.constraint_labels()
        out["named pivots %s" % permute] = C28.attempt(pivots)

    def drawn():
        trappy.LinePlot(t, [t.alpha], column=["val"], pivot="mask", concat=rng.random() < .5).view()
        return C28.figures()
    out["named plot"] = C28.attempt(drawn)
    out["named page"] = C28.attempt(lambda: C28.page(lambda: trappy.ILinePlot(t, [t.alpha], column=["val"], pivot="mask").view(test=True)))
    for j in range(5):
        d = os.path.join(path, "wa%d" % j, "after", "sys", "devices", "virtual", "thermal", "thermal_zone0")
        os.makedirs(d)
        files = rng.sample(["k_d", "k_po", "policy", "cdev0_weight", "cdev10_weight", "cdev2_weight", "trip_point_0_temp", "trip_point_1_temp", "sustainable_power", "other"], rng.randint(1, 9))
        for f in files:
            with open(os.path.join(d, f), "w") as fh:
                fh.write("%s\n" % rng.choice([5, "step_wise"]))
        given["named files %d" % j] = sorted(files)

        def table():
            with C28.shown() as o:
                SysfsExtractor(os.path.join(path, "wa%d" % j)).pretty_print_in_ipython()
            return "\n".join(str(x) for x in o)
        out["parameters %d" % j] = C28.attempt(lambda: sorted(SysfsExtractor(os.path.join(path, "wa%d" % j)).get_parameters().items()))
        out["table of parameters %d" % j] = C28.attempt(table)
    with open(os.path.join(path, "wa0", "results.csv"), "w") as fh:
        fh.write("id,workload,iteration,metric,value,units\n")
        for b in rng.sample(["geekbench", "antutu", "dhry", "vellamo"], rng.randint(1, 4)):
            for run in ("base", "tuned"):
                for i in range(2):
                    fh.write("%s,%s,%d,score_%d,%d,\n" % (run, b, i, i, rng.randrange(100)))
    out["benchmarks"] = C28.attempt(lambda: get_results(os.path.join(path, "wa0")))


def main(path):
    with open(path) as f:
        job = json.load(f)
    out = dict(cases=[], worlds=[], error=None)
    try:
        sys.path.insert(0, VERIF)
        arrange(job)
        from vlib import core
        trappy = core.load_trappy()
        trappy.ftrace.GenericFTrace.disable_cache = True
        mods = {}
        for n, seed, i in job["cases"]:
            if n not in mods:
                mods[n] = importlib.import_module("checks." + n)
                if hasattr(mods[n], "setup"):
                    mods[n].setup()
            r = core.run_case(mods[n], n, "quick", seed, i, core.load_known(n))
            out["cases"].append(dict(check=n, seed=seed, i=i, violation=r["violation"], error=r["error"], counts=r["counts"]))
        for seed, d in job["worlds"]:
            out["worlds"].append(results(seed, d))
        out["about"] = dict(hash=hash("x"), optimized=sys.flags.optimize, utf8=sys.flags.utf8_mode, encoding=__import__("locale").getpreferredencoding(False), backend=__import__("matplotlib").get_backend(),
                            registered=[c for s in ("thermal_classes", "sched_classes", "dynamic_classes") for c in getattr(trappy.ftrace.GenericFTrace, s)])
    except BaseException:
        out["error"] = traceback.format_exc()
    with open(job["out"] + ".part", "wb") as f:
        pickle.dump(out, f)
    os.rename(job["out"] + ".part", job["out"])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1])
