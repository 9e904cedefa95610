"""The same in every environment: workloads of the other checks, and analyses compared, in processes started differently."""
import json, os, pickle, shutil, signal, subprocess, sys, time
import trappy
from vlib import core, elsewhere, forked
from vlib.core import Inconclusive

CASES = {"quick": 32, "thorough": 1600}
NAMES = ["C%02d" % i for i in range(1, 32) if i not in (8, 9, 17, 28)]
RULE = ("A case is a process started with 1-5 of: another hash seed, -O or -OO, another locale and text encoding, time zone, drawing backend, order in which directories are listed, order of imports, garbage collection (never, often), "
        "thread switching, development mode, umask, a restricted home and terminal; in it 12 cases of the workloads of the other checks run under their monitors, and a world of analyses and parses (with a cache made in another environment) "
        "whose results are compared with those of this process. Distinct by (environment, workloads).")
ASSUMPTIONS = ["tables of results, names in WA files and the package's style sheets are read in the encoding of the locale, so encodings other than UTF-8 are combined with workloads without them",
               "the order of events in get_filters() and of refusals that name the first clash is not specified"]
REQUIRED = ["processes", "workload cases", "results compared", "parses compared", "caches of another environment", "hash seed", "optimized", "locale", "time zone", "backend", "listing", "imports", "collecting", "switching", "development", "umask", "terminal"]
MODULES = ["trappy.stats.grammar", "trappy.plotter.LinePlot", "trappy.plotter.ILinePlot", "trappy.base", "trappy.sched", "trappy.thermal", "trappy.ftrace", "trappy.systrace", "trappy.stats.Trigger", "trappy.plot_utils", "trappy.wa", "trappy.nbexport",
           "trappy.fallback", "trappy.common_clk", "trappy.cpu_power", "trappy.devfreq_power", "trappy.dynamic", "trappy.utils", "trappy.bare_trace", "trappy.compare_runs", "trappy.filesystem"]
# these read files in the encoding of the locale
TEXT = ("C25", "C26", "C24", "C20", "C21", "C31", "C30")


def environment(ctx):
    rng = ctx.rng
    env = {k: os.environ[k] for k in os.environ if k not in ("VT_CHILD",)}
    args, job, what = [], {}, {}
    kinds = ["optimized", "locale", "time zone", "backend", "listing", "imports", "collecting", "switching", "development", "umask", "terminal"]
    chosen = rng.sample(kinds, rng.choice([0, 1, 2, 4]))
    if ctx.i % 4 == 1 and "optimized" not in chosen:
        chosen.append("optimized")
    if ctx.i % 4 == 3 and "listing" not in chosen:
        chosen.append("listing")
    chosen += [kinds[ctx.i % len(kinds)]] if kinds[ctx.i % len(kinds)] not in chosen else []
    if rng.random() < .7 or not chosen:
        what["hash seed"] = env["PYTHONHASHSEED"] = str(rng.randrange(1, 1 << 32))
    for k in chosen:
        if k == "optimized":
            what[k] = rng.choice(["-O", "-OO", "-OO"])
            args.append(what[k])
        elif k == "locale":
            l, utf8 = rng.choice([("C", "0"), ("POSIX", "0"), ("C", "1"), ("C.UTF-8", "0")])
            env.update(LC_ALL=l, PYTHONUTF8=utf8, PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="utf-8")
            what[k] = l + " " + utf8
        elif k == "time zone":
            what[k] = env["TZ"] = rng.choice(["Asia/Kathmandu", "America/St_Johns", "XYZ-13:45", ""])
        elif k == "backend":
            what[k] = env["MPLBACKEND"] = rng.choice(["svg", "pdf", "ps", "template", "cairo"][:3])
        elif k == "listing":
            what[k] = job[k] = rng.choice(["reversed", "shuffled", "shuffled"])
        elif k == "imports":
            what[k] = job[k] = rng.sample(MODULES, rng.choice([1, 3, len(MODULES)]))
        elif k == "collecting":
            what[k] = job[k] = rng.choice(["never", "often"])
        elif k == "switching":
            what[k] = job[k] = rng.choice([1e-6, 1.0])
        elif k == "development":
            what[k] = "-X dev"
            args += ["-X", "dev"]
        elif k == "umask":
            what[k] = rng.choice([0, 0o077, 0o002])
        elif k == "terminal":
            what[k] = rng.choice(["tty", "closed"])
            env.update(COLUMNS="20", LINES="4", TERM=rng.choice(["dumb", "xterm"]), NO_COLOR="1")
    return env, args, job, what


def case(ctx):
    rng = ctx.rng
    env, args, job, what = environment(ctx)
    scratch = ctx.path("scratch")
    for d in ("home", "tmp", "home/jupyter", "home/mpl", "work"):
        os.makedirs(os.path.join(scratch, d))
    env.update(VT_SCRATCH=scratch, HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"), IPYTHONDIR=os.path.join(scratch, "home", "ipython"), JUPYTER_DATA_DIR=os.path.join(scratch, "home", "jupyter"),
               MPLCONFIGDIR=os.path.join(scratch, "home", "mpl"))
    names = NAMES if "locale" not in what or "UTF" in what["locale"] or what["locale"].endswith("1") else [n for n in NAMES if n not in TEXT]
    cases = [[rng.choice(names), ctx.seed * 1000 + rng.randrange(1000), j] for j in range(12 if ctx.tier == "quick" else 30)]
    world = ctx.path("world")
    os.makedirs(world)
    ctx.keep("environment", repr(what))
    ctx.keep("cases", repr(cases))
    st, here = forked.run(lambda: elsewhere.results(ctx.seed * 100000 + ctx.i, world), ctx.path("here.pickle"))
    if st != "ok":
        raise Inconclusive("the analyses here: %s %s" % (st, here))
    # the traces and their caches stay, the rest is made again
    for d in os.listdir(world):
        if not d.startswith("parse"):
            p = os.path.join(world, d)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    out = ctx.path("out.pickle")
    job.update(seed=ctx.i, cases=cases, worlds=[[ctx.seed * 100000 + ctx.i, world]], out=out)
    path = ctx.path("job.json")
    with open(path, "w") as f:
        json.dump(job, f)
    log = ctx.path("log")
    with open(log, "wb") as f:
        p = subprocess.Popen([sys.executable, "-B"] + args + [os.path.join(core.VERIF, "vlib", "elsewhere.py"), path], env=env, cwd=os.path.join(scratch, "work"),
                             stdin=subprocess.DEVNULL, stdout=f, stderr=f, umask=what.get("umask", -1))
        t0 = time.time()
        while p.poll() is None:
            time.sleep(.02)
            if time.time() - t0 > 400:
                p.kill()
                p.wait()
                raise Inconclusive("the process did not end")
    if not os.path.exists(out):
        with open(log, "rb") as f:
            text = f.read().decode("utf-8", "replace")[-3000:]
        raise Inconclusive("the process ended with %s: %s" % (p.returncode, text))
    with open(out, "rb") as f:
        r = pickle.load(f)
    said = " ".join("%s %s" % (k, v if len(str(v)) < 80 else "...") for k, v in sorted(what.items()))
    ctx.check(r["error"] is None, "a process with %s: %s" % (said, str(r["error"])[-1500:]))
    ctx.count("processes")
    for k in what:
        ctx.count(k)
    for c in r["cases"]:
        v = c["violation"]
        ctx.check(v is None, "with %s, %s (seed %d, case %d): %s" % (said, c["check"], c["seed"], c["i"], v and v["msg"]), detail=v and v["detail"])
        if c["error"]:
            ctx.count("workloads without an answer")
            ctx.keep("no answer", c["error"])
        ctx.count("workload cases")
        ctx.count("checks of " + c["check"])
        ctx.count("monitor checks elsewhere", c["counts"].get("monitor checks", 0))
    (mine, given), (theirs, given2) = here, r["worlds"][0]
    if given != given2:
        raise Inconclusive("the analyses were given different things: %s" % [k for k in given if given[k] != given2.get(k)])
    from checks.C28 import diff
    ctx.check(set(mine) == set(theirs), "with %s there are results of %r" % (said, sorted(set(mine) ^ set(theirs))))
    for k in mine:
        ctx.check(mine[k] == theirs[k], "with %s, %s gives %s" % (said, k, diff(theirs[k], mine[k])), given={a: str(b)[:2000] for a, b in given.items()})
        ctx.count("parses compared" if k.startswith("parse") else "results compared")
        if k.endswith("with cache"):
            ctx.count("caches of another environment")
    ctx.seen(repr(sorted(what.items())), repr(cases))
    ctx.sample(dict(environment=what, about={k: v for k, v in r["about"].items() if k != "registered"}, workloads=["%s/%d" % (a, b) for a, b, _ in cases]))
