"""Several threads at once: each gets what it would get alone, whatever the interleaving."""
import os, random, re, sys, threading, time
import pandas as pd
import trappy
from trappy.plotter import AttrConf
from trappy.plotter.Constraint import ConstraintManager
from trappy.plotter.EventPlot import EventPlot
from checks import C28
from vlib import cachework as cw, core, forked, registry
from vlib.core import Inconclusive
from vlib.frames import trace_fingerprint

CASES = {"quick": 120, "thorough": 6000}
LEVEL = "exploration"
RULE = ("A case is 2-6 threads that start together, each with 3-8 tasks: reading traces of its own or the ones all read (text, HTML, binary through a stand-in for trace-cmd; with or without caches), and analyses of its own of shared traces, "
        "tables, filters, variables and topologies (expressions, inspection, triggers, aggregation, correlation, residency, callbacks, thermal tables, constraints, event pages, duplicates); threads are made to yield at random calls, returns and lines of the package. "
        "Distinct by the order in which the threads were seen to enter the package.")
ASSUMPTIONS = ["each thread has its own parsers, aggregators and correlators, and plots are drawn by one thread (matplotlib)", "events are not registered while others read"]
REQUIRED = ["threads", "tasks", "switches between threads", "entries observed", "shared files read", "own files read", "binary traces", "systraces", "with cache", "tasks compared", "worlds compared", "expression", "inspection", "aggregation", "correlation",
            "trigger", "callbacks", "residency", "thermal tables", "constraints", "event plot", "duplicates", "reference"]
KINDS = [C28.expression, C28.expression, C28.inspection, C28.reference, C28.trigger, C28.aggregation, C28.correlation, C28.direct_alignment, C28.residency, C28.callbacks, C28.thermal_tables, C28.duplicates, C28.topology, C28.trace_queries]
STUB = "#!/bin/sh\nfor a; do last=$a; done\ncat \"$last\"\n"
ROOT = os.path.join(core.REPO, "trappy") + os.sep
HEX = re.compile("0x[0-9a-f]+|[0-9a-f]{32}")


def attempt(f):
    try:
        return ("gives", C28.canon(f()))
    except Exception as e:
        msg = HEX.sub("", str(e))[:200]
        return ("fails", type(e).__name__, "" if "unique words" in msg else msg)


class Interleaver(object):
    """Notes which thread enters the package, and lets others go on there."""
    def __init__(self, seed, rate, lines):
        self.order, self.seed, self.rate, self.lines = [], seed, rate, lines

    def start(self, k):
        rng, order, rate = random.Random("%s/%d" % (self.seed, k)), self.order, self.rate

        def pause():
            if rng.random() < rate:
                time.sleep(rng.choice([0, 0, 1e-6, 2e-4]))

        def profile(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if event == "call":
                    order.append(k)
                pause()

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if event == "call":
                    order.append(k)
                pause()
                return trace
        if self.lines:
            sys.settrace(trace)
        else:
            sys.setprofile(profile)


def constraints(w):
    rng = w.rng
    ts = w.numbers
    permute = rng.random() < .5
    f = rng.choice([{}, {"state": ["run", "idle"]}, {"val": [0, 1, 2]}])

    def go():
        cm = ConstraintManager(ts, ["val", "load"] if permute else ["val"], [ts[0].alpha, ts[0].beta] if permute else [ts[0].alpha], "cpu", f, zip_constraints=not permute)
        piv, n = cm.generate_pivots(permute)
        return n, list(piv), [(str(c), sorted(((str(k), C28.canon(v)) for k, v in c.result.items()), key=str)) for c in cm]
    return "constraints", go


def event_plot(w):
    rng = w.rng
    data = {"t%d" % i: [[.5 * j, .5 * j + rng.choice([0, .25, .5]), rng.randrange(3)] for j in range(rng.choice([1, 4, 30]))] for i in range(rng.choice([1, 3]))}
    lanes = rng.choice([None, [2, 1, 0]])

    def go():
        return C28.IDS.sub("id", EventPlot(data, sorted(data), [0, 20], num_lanes=0 if lanes else 3, lanes=lanes).html())
    return "event plot", go


def files(ctx, d, n):
    """[(form, path, arguments)]"""
    rng, out = ctx.rng, []
    os.makedirs(d)
    for k in range(n):
        form = rng.choice(["txt", "txt", "html", "dat"])
        path = os.path.join(d, "%s%d.%s" % (rng.choice("ab"), k, form))
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(cw.text(rng, html=form == "html"))
        out.append((form, path))
    return out


def reading(ctx, form, path, shared):
    kw = cw.args(ctx.rng)
    ctx.count("shared files read" if shared else "own files read")
    ctx.count({"txt": "text traces", "html": "systraces", "dat": "binary traces"}[form])
    cls = trappy.SysTrace if form == "html" else trappy.FTrace

    def go():
        t = cls(path, **kw)
        return trace_fingerprint(t), repr((t.basetime, t.endtime, t.get_duration(), getattr(t, "_cpus", None)))
    return ("reads %s" % os.path.basename(path), go)


def case(ctx):
    rng = ctx.rng
    cache = rng.random() < .6
    C28.IDENTITY = True
    bindir = ctx.path("bin")
    os.makedirs(bindir)
    with open(os.path.join(bindir, "trace-cmd"), "w") as f:
        f.write(STUB)
    os.chmod(os.path.join(bindir, "trace-cmd"), 0o755)
    old = os.environ["PATH"]
    with registry.preserved(), cw.cached(False):
        w = C28.World(ctx)
    keep = w.keep
    w.keep = lambda name, obj: obj
    shared = files(ctx, ctx.path("shared"), rng.choice([1, 1, 2]))
    n = rng.choice([2, 2, 3, 4, 6])
    todo = []
    # Often they all do the same
    only = rng.choice(KINDS + [constraints, event_plot]) if rng.random() < .5 else None
    if only:
        ctx.count("threads that do the same", n)
    for k in range(n):
        own = files(ctx, ctx.path("own%d" % k), 2)
        tasks = []
        for _ in range(rng.randint(3, 8)):
            r = rng.random()
            if only and r < .9:
                tasks.append(only(w))
            elif r < .3:
                tasks.append(reading(ctx, *rng.choice(shared), True))
            elif r < .45:
                tasks.append(reading(ctx, *rng.choice(own), False))
            else:
                tasks.append(rng.choice(KINDS + [constraints, event_plot])(w))
        todo.append(tasks)
    start = w.state()
    ctx.keep("tasks", repr([[name for name, _ in t] for t in todo]))
    try:
        os.environ["PATH"] = bindir + os.pathsep + old

        def alone():
            with cw.cached(False):
                return [[attempt(f) for _, f in tasks] for tasks in todo]
        st, want = forked.run(alone, ctx.path("alone.pickle"))
        if st != "ok":
            raise Inconclusive("one after another: %s %s" % (st, want))
        inter = Interleaver(ctx.seed * 100000 + ctx.i, rng.choice([0, .01, .1, .5]), rng.random() < .5)
        got = [[] for _ in todo]
        gate = threading.Barrier(n)

        def run(k):
            gate.wait()
            inter.start(k)
            try:
                for _, f in todo[k]:
                    got[k].append(attempt(f))
            finally:
                sys.setprofile(None)
                sys.settrace(None)
        ths = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 5e-3]))
        try:
            with cw.cached(cache):
                for t in ths:
                    t.start()
                end = time.time() + 200
                for t in ths:
                    t.join(max(0, end - time.time()))
        finally:
            sys.setswitchinterval(interval)
        ctx.check(not any(t.is_alive() for t in ths), "threads that do not end: %s" % [[name for name, _ in todo[k]][len(got[k])] for k in range(n) if ths[k].is_alive()])
        for k in range(n):
            for j, (name, _) in enumerate(todo[k]):
                ctx.count("tasks")
                ctx.count(name if not name.startswith("reads") else "parses")
                ctx.check(got[k][j] == want[k][j], "thread %d of %d, %s (after %s) gives %s" % (k, n, name, [x for x, _ in todo[k][:j]], C28.diff(got[k][j], want[k][j])), others=[[x for x, _ in t] for t in todo])
                ctx.count("tasks compared")
        now = w.state()
        for key in start:
            ctx.check(now[key] == start[key], "threads changed %s: %s" % (key, C28.diff(now[key], start[key])))
        ctx.count("worlds compared")
        if cache:
            ctx.count("with cache")
            # what the threads left as caches serves as well
            with cw.cached(True):
                for k in range(n):
                    for j, (name, f) in enumerate(todo[k]):
                        if name.startswith("reads"):
                            r = attempt(f)
                            ctx.check(r == want[k][j], "after the threads, %s gives %s" % (name, C28.diff(r, want[k][j])))
                            ctx.count("caches of threads read")
            left = [p for d in os.listdir(ctx.dir) if d.startswith(("own", "shared")) for p in cw.tree(ctx.path(d)) if p.endswith(".tmp")]
            ctx.check(not left, "the threads left %r" % left)
    finally:
        os.environ["PATH"] = old
    order = inter.order
    ctx.count("threads", n)
    ctx.count("entries observed", len(order))
    ctx.count("switches between threads", sum(1 for a, b in zip(order, order[1:]) if a != b))
    ctx.seen(tuple(order[:5000]))
    ctx.sample(dict(threads=[[x for x, _ in t] for t in todo], cache=cache, entries=len(order), switches=sum(1 for a, b in zip(order, order[1:]) if a != b)))
